//! The message and text properties again, over sizes: most of the content fixed, a few unconstrained
//! characters and fields at the ends.
use super::client::*;
use super::decode::*;
use super::roundtrip::*;
use super::structs::*;
use crate::kit::*;
use crate::spec::*;
use crate::vp;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::verif_hooks::{Codec, OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};

// ---------------------------------------------------------------- C02 to C05

fn neg_of(domain: Vec<u32>, workstation: Vec<u32>, version: bool) -> Neg {
    let o = |s: Vec<u32>| if s.is_empty() { None } else { Some(s) };
    let (domain, workstation) = (o(domain), o(workstation));
    let version = if version { Some(any_version()) } else { None };
    let flags = vp::u32_("flags") & !bit::VERSION | if version.is_some() { bit::VERSION } else { 0 };
    let mut msg = Negotiate::default();
    msg.set_domain_name(domain.as_ref().map(|s| string(s)));
    msg.set_workstation(workstation.as_ref().map(|s| string(s)));
    msg.negotiate_flags = Flags(flags);
    msg.version = version.as_ref().map(|v| v.0.clone());
    Neg { msg, flags, domain, workstation, version: version.map(|v| v.1) }
}
/// What goes with a long text: the UTF-8 length of its last character and of those in the middle (as far
/// as they fit), whether other fields are there, and a version.
pub struct Mode {
    pub last: usize,
    pub mid: usize,
    pub other: usize,
    pub version: bool,
}
pub fn mode(n: usize, ascii_from: usize) -> Mode {
    let m = vp::choose("mode", 4);
    Mode {
        last: if n > ascii_from { 1 } else { m + 1 },
        mid: if n > 10000 { 1 } else { [1, 5, 2, 4][m] },
        other: m / 2 % 2,
        version: m == 0 || m == 3,
    }
}
/// One name of any of the sizes, the other short or absent.
pub fn neg_sizes(max: usize, shards: usize) -> Neg {
    let n = size("chars", max, shards);
    let m = mode(n, 65532);
    let long = varied_nul("name", n, 1, m.mid, m.last);
    let short = varied_nul("other", m.other * 5, 1, 1, 1);
    let version = m.version;
    if vp::flag("workstation") {
        neg_of(short, long, version)
    } else {
        neg_of(long, short, version)
    }
}
/// Both names long: payload offsets beyond 16 bits.
pub fn neg_far() -> Neg {
    let (d, w) = [(65535, 65535), (65535, 1), (65530, 100), (32768, 32767), (32768, 32768), (65503, 2), (65504, 2), (1, 65535)]
        [vp::choose("sizes", 8)];
    neg_of(varied_ascii("domain", d), varied_ascii("workstation", w), vp::flag("hasversion"))
}
pub fn chal_of(name: Vec<u32>, infos: Vec<P>, version: bool) -> Chal {
    let version = if version { Some(any_version()) } else { None };
    let flags = vp::u32_("flags") & !bit::VERSION | if version.is_some() { bit::VERSION } else { 0 };
    chal(flags, if name.is_empty() { None } else { Some(name) }, vp::bytes("sc"), infos, version)
}
/// A target name of any of the sizes.
pub fn chal_names(max: usize, shards: usize) -> Chal {
    let n = size("chars", max, shards);
    let m = mode(n, 32766);
    let pairs = if m.other > 0 { vec![pair(6, 0, 1), pair(2, 1, 1)] } else { vec![] };
    chal_of(varied_in("target", n, 1, m.mid, m.last), pairs, m.version)
}
/// One pair of text of any of the sizes.
pub fn chal_texts(max: usize, shards: usize) -> Chal {
    let n = size("chars", max, shards);
    let m = mode(n, 32762);
    let id = TEXT_IDS[(n + 2 * m.last + 3 * vp::choose("kind", 2)) % 6];
    let mut l = vec![P::Text(id, varied_in("name", n, 1, m.mid, m.last))];
    if n < 32000 && m.other > 0 {
        l.push(pair(7, 0, 1))
    }
    chal_of(vec![], l, m.version)
}
/// Lists of many pairs.
pub const COUNTS: [usize; 40] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 30, 31, 32, 33, 34, 40, 48, 50, 63, 64, 65, 66, 80, 99,
    100, 101, 127, 128, 129, 200, 255, 256, 257,
];
pub fn chal_counts() -> Chal {
    let s = vp::shard(4);
    let n = COUNTS[4 * vp::choose("pairs", 10) + s];
    chal_of(varied("target", 3 * vp::choose("target", 2), 1, 1), many_pairs(n, 3 * vp::choose("chars", 2)), vp::flag("hasversion"))
}
/// The same pair over and over, to the largest list that fits its field.
pub fn chal_same() -> Chal {
    let id = 1 + vp::choose("kind", 10) as u16;
    let n = [2, 3, 5, 20, 70, 300, 1000][vp::choose("pairs", 7)];
    chal_of(vec![], (0..n).map(|i| if i == n - 1 { pair(id, 2, 1) } else { pair_fixed(id, i) }).collect(), false)
}
pub fn pair_fixed(id: u16, i: usize) -> P {
    let b = (i % 7) as u8;
    match id {
        6 => P::Bits(i as u32 & 7),
        7 => P::Time(i as u32, 3),
        8 => P::Host([b, 0, 0, 0, 0, 0, 0, 0, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b, b]),
        10 => P::Bind([b; 16]),
        id => P::Text(id, vec![0x41 + b as u32, 0x42]),
    }
}
/// Name and list both large: offsets beyond 16 bits.
pub fn chal_far() -> Chal {
    let (n, t) = [(32767, 32763), (32767, 1), (100, 32763), (20000, 20000), (32743, 2), (32744, 2)][vp::choose("sizes", 6)];
    chal_of(varied("target", n, 1, 1), vec![P::Text(2, varied("name", t, 1, 1))], vp::flag("hasversion"))
}
/// One text of an AUTHENTICATE message of any of the sizes.
pub fn auth_sizes(max: usize, shards: usize) -> Auth {
    let n = size("chars", max, shards);
    let m = mode(n, 32766);
    let which = vp::choose("which", 3);
    let full = m.other > 0;
    let sh = AuthShape {
        lm: 2 * full as usize,
        nt: 0,
        chars: [0; 3],
        key: full,
        version: m.version,
    };
    let mut a = build_auth(&sh, 1, vec![]);
    if full {
        fixed_nt(&mut a);
    }
    for i in 0..3 {
        if i == which {
            set_text(&mut a, i, varied_in("long", n, 1, m.mid, m.last))
        } else if full {
            set_text(&mut a, i, vec![0x61 + i as u32, 0xe9, 0x62])
        }
    }
    a
}
fn fixed_nt(a: &mut Auth) {
    let n = Nt::V1([0x5a; 24]);
    a.msg.nt_challenge_response = Some(n.value());
    a.nt = Some(n);
}
pub fn set_text(a: &mut Auth, which: usize, s: Vec<u32>) {
    let t = Some(string(&s).into());
    match which {
        0 => a.msg.domain = t,
        1 => a.msg.user = t,
        _ => a.msg.workstation = t,
    }
    a.texts[which] = Some(s);
}
/// Several long texts.
pub fn auth_far() -> Auth {
    let n = [[32767, 32767, 32767], [32767, 1, 1], [1, 32767, 3], [20000, 20000, 20000], [300, 200, 100], [20, 300, 15], [16, 15, 260]]
        [vp::choose("sizes", 7)];
    let sh = AuthShape { lm: 1, nt: 0, chars: [0; 3], key: true, version: vp::flag("hasversion") };
    let mut a = build_auth(&sh, 1, vec![]);
    fixed_nt(&mut a);
    let sym = vp::choose("symbolic", 3);
    for i in 0..3 {
        let mut s = vec![0x78; n[i]];
        if i == sym {
            s = varied("long", n[i], 1, 1)
        }
        set_text(&mut a, i, s);
    }
    a
}
/// NTLMv2 responses with many pairs.
pub fn auth_counts() -> Auth {
    let s = vp::shard(4);
    let n = COUNTS[4 * vp::choose("pairs", 10) + s];
    let mut l = many_pairs(n, 3 * vp::choose("chars", 2));
    l.push(P::Eol);
    let sh = AuthShape { lm: 2, nt: 2 + vp::choose("form", 2), chars: [0, 1, 0], key: false, version: vp::flag("hasversion") };
    let a = build_auth(&sh, 1, l);
    unambiguous(&a);
    a
}
/// NTLMv2 responses with one pair of text of any of the sizes.
pub fn auth_texts(max: usize, shards: usize) -> Auth {
    let n = size("chars", max, shards);
    let l = vec![P::Text(TEXT_IDS[(n + 3 * vp::choose("kind", 2)) % 6], varied("name", n, 1, 1)), P::Eol];
    let sh = AuthShape { lm: 2, nt: 2 + vp::choose("form", 2), chars: [0, 1, 0], key: false, version: false };
    let a = build_auth(&sh, 1, l);
    unambiguous(&a);
    a
}

// ---------------------------------------------------------------- C01

/// Lists of many pairs with something unconstrained at the end, or cut short.
fn c01_counts() {
    let n = [3, 8, 16, 32, 33, 64, 65, 128, 256][vp::choose("pairs", 9)];
    let mut w = wire_list(&many_pairs(n, 0));
    let k = w.len();
    match vp::choose("end", 4) {
        0 => w.extend_from_slice(&vp::vec("end", 5)),
        1 => w.truncate(k - 1 - vp::choose("cut", 3)),
        2 => {
            w.truncate(k / 2);
            w.extend_from_slice(&vp::vec("end", 4));
        }
        _ => w.extend_from_slice(&[0; 4]),
    }
    total::<Vec<AvPair>>(&w);
    if w.len() < 60000 {
        let d = Desc { len: w.len() as u16, max: 0, off: 48 };
        total::<Challenge>(&raw_chal(0, &[1; 8], &[0; 8], &[NONE, d], &w));
        let mut b = blob((1, 2), &[3; 8], &[]);
        b.extend_from_slice(&w);
        total::<NtChallenge>(&b);
    }
}
/// Long text with two unconstrained UTF-16 units or four unconstrained bytes somewhere.
fn c01_texts() {
    let n = size("bytes", 5000, 4);
    let mut w: Vec<u8> = (0..n).map(|i| if i % 2 == 0 { 0x41 + (i % 50) as u8 } else { 0 }).collect();
    let at = [0, (n / 2) & !1, n.saturating_sub(4) & !1, n.saturating_sub(3)][vp::choose("at", 4)];
    let x = vp::vec("units", 4);
    for i in 0..4 {
        if at + i < n {
            w[at + i] = x[i]
        }
    }
    total::<UnicodeString>(&w);
    let mut p = vec![1 + 2 * vp::choose("kind", 2) as u8, 0];
    p.extend_from_slice(&(n as u16).to_le_bytes());
    p.extend_from_slice(&w);
    total::<AvPair>(&p);
}
fn c01_oem() {
    let n = size("bytes", 5000, 4);
    let mut w = vec![0x62u8; n];
    let at = [0, n / 2, n.saturating_sub(4), n.saturating_sub(2)][vp::choose("at", 4)];
    let x = vp::vec("bytes", 4);
    for i in 0..4 {
        if at + i < n {
            w[at + i] = x[i]
        }
    }
    total::<OEMString>(&w);
    total::<Negotiate>(&raw_neg(0, &[NONE, Desc { len: n as u16, max: 1, off: 32 }], &w));
}
/// Payloads of many sizes, in range or just out of it, several at once.
fn c01_messages(kind: usize) {
    let n = size("bytes", 65535, 2);
    let mut r = raw(kind, vp::flag("hasversion"), 0);
    let base = r.b.len();
    r.b.resize(base + n, 0x41);
    let fields = r.at.len();
    let over = vp::choose("over", 3);
    let which = if over > 0 { vp::choose("which", fields) } else { 0 };
    for i in 0..fields {
        // one of them perhaps beyond the end
        r.place(i, n, base + if which == i { over } else { 0 });
    }
    match kind {
        0 => total::<Negotiate>(&r.b),
        1 => total::<Challenge>(&r.b),
        _ => total::<Authenticate>(&r.b),
    }
}

// ---------------------------------------------------------------- C06, C07

/// One payload of any of the sizes behind the header, with bytes before and after it.
fn c06_sizes(kind: usize) {
    vp::expect("read");
    let (version, n, i, w, infos) = payload(kind);
    let gap = [0, 3][vp::choose("gap", 2)];
    let r = placed(kind, version, i, &w, gap, 0);
    match kind {
        0 => read_neg(&r, version),
        1 => read_chal(&r, version, &infos),
        _ => read_message(&r, version),
    }
    let _ = n;
}
/// A field of a message of this kind and a value of some size for it.
fn payload(kind: usize) -> (bool, usize, usize, Vec<u8>, Vec<P>) {
    let s = vp::choose("mode", 3);
    let version = s == 1;
    let mut infos = vec![];
    let (n, i, w) = match kind {
        0 => {
            let n = size("chars", 65535, 4);
            (n, vp::choose("field", 2), utf8(&varied("name", n, 1, 1)))
        }
        1 => match vp::choose("field", 3) {
            0 => {
                let n = size("chars", 32767, 4);
                (n, 0, utf16le(&varied("target", n, 1, 1 + s)))
            }
            1 => {
                let n = size("chars", 32763, 4);
                infos = vec![P::Text(TEXT_IDS[(n + s) % 6], varied("name", n, 1, 1 + s)), P::Eol];
                (n, 1, wire_list(&infos))
            }
            _ => {
                let sh = vp::shard(4);
                let n = COUNTS[4 * vp::choose("pairs", 10) + sh];
                infos = many_pairs(n, 0);
                infos.push(P::Eol);
                (n, 1, wire_list(&infos))
            }
        },
        _ => {
            let n = size("chars", 32767, 4);
            match vp::choose("field", 4) {
                3 => {
                    let n = n.min(30000);
                    let l = vec![P::Text(TEXT_IDS[(n + s) % 6], varied("name", n, 1, 1 + s)), P::Eol];
                    (n, NT, Nt::V2(Some([7; 16]), (1, 2), [3; 8], l).wire())
                }
                f => (n, DOM + f, utf16le(&varied("text", n, 1, 1 + s))),
            }
        }
    };
    (version, n, i, w, infos)
}
/// A message with this payload; `over`: the descriptor reaches that far beyond the end.
fn placed(kind: usize, version: bool, i: usize, w: &[u8], gap: usize, over: usize) -> Raw {
    let mut r = raw(kind, version, 0);
    r.b.resize(r.b.len() + gap, 0xee);
    let off = r.b.len();
    r.b.extend_from_slice(w);
    if over == 0 {
        r.b.resize(r.b.len() + 3 * (gap % 2), 0xdd);
    }
    r.place(i, w.len(), off + over);
    r
}
/// The same payloads, but moved over the end of the message, or the message cut.
fn c07_sizes(kind: usize) {
    let (version, _, i, w, _) = payload(kind);
    let gap = [0, 16][vp::choose("gap", 2)];
    let over = [1, 2, w.len(), 0x10000][vp::choose("over", 4)];
    let r = placed(kind, version, i, &w, gap, over);
    rejected(kind, &r.b, "payload beyond the message accepted");
}
/// Lists of many pairs without their terminator.
fn c07_counts() {
    let n = COUNTS[vp::choose("pairs", 40)];
    let mut l = many_pairs(n, 0);
    if vp::flag("inner") {
        l.insert(n / 2, P::Eol);
    }
    let mut w = wire_list(&l);
    let cut = vp::choose("terminator", 4);
    w.extend_from_slice(&vec![0; cut]);
    let version = vp::flag("hasversion");
    let r = placed(1, version, 1, &w, 0, 0);
    rejected(1, &r.b, "list without a terminator accepted");
}

// ---------------------------------------------------------------- C08, C09

fn c08_sizes() {
    vp::expect("pair");
    let n = size("chars", 32767, 4);
    let m = mode(n, 32766);
    let id = TEXT_IDS[(n + m.last + 3 * vp::choose("kind", 2)) % 6];
    let n = if n > 10000 { n } else { n.min(32767) };
    pair_exact(&P::Text(id, varied_in("name", n, 1, m.mid, m.last)));
}
fn c08_counts() {
    vp::expect("list");
    let n = COUNTS[vp::choose("pairs", 40)];
    let mut l = many_pairs(n, [0, 3, 20][vp::choose("chars", 3)]);
    if vp::flag("eol") {
        l.push(P::Eol);
    }
    list_exact(&l);
}
fn c09_sizes() {
    vp::expect("carried");
    let n = size("chars", 65535, 4);
    let m = mode(n, 65535);
    carried(&varied_in("text", n, if n < 40 { 5 - m.last } else { 1 }, m.mid, m.last));
}
/// An unpaired surrogate anywhere in a long text.
fn c09_unpaired() {
    vp::expect("cut or refused");
    let n = size("chars", 2000, 2);
    let mut w = utf16le(&varied("text", n, 1, 1));
    let at = 2 * [0, n / 2, n - 1][vp::choose("at", 3)];
    let u = vp::u16_("unit");
    vp::assume((u >= 0xd800) & (u <= 0xdfff));
    w[at] = u as u8;
    w[at + 1] = (u >> 8) as u8;
    if let Some((t, _)) = UnicodeString::decode(&w) {
        // at most the characters before it
        let b = t.as_bytes();
        vp::check(b.len() <= at / 2 + at / 2, "characters that were not there");
        let e: Vec<u32> = w[..at].chunks(2).map(|u| le16(u, 0) as u32).collect();
        let e = utf8(&e);
        vp::check(b.len() <= e.len() && vp::same(b, &e[..b.len()]), "characters that were not there");
    }
    vp::reach("cut or refused");
}

// ---------------------------------------------------------------- C10, C11

fn c10_sizes() {
    vp::expect("set and cleared");
    let n = size("chars", 5000, 2);
    let s = varied_in("name", n, 1, [1, 5][vp::choose("mid", 2)], 1);
    let (mut m, mut c) = (Negotiate::default(), Challenge::default());
    let f = vp::u32_("flags");
    m.negotiate_flags = Flags(f);
    c.negotiate_flags = Flags(f);
    m.set_domain_name(Some("D".to_owned()));
    m.set_workstation(Some("W".to_owned()));
    for on in [true, false, true] {
        let o = if on { Some(s.clone()) } else { None };
        let (d, w) = (vec![0x44], vec![0x57]);
        let which = vp::choose("field", 3);
        match which {
            0 => {
                m.set_domain_name(o.as_ref().map(|s| string(s)));
            }
            1 => {
                m.set_workstation(o.as_ref().map(|s| string(s)));
            }
            _ => {
                c.set_target_name(o.as_ref().map(|s| string(s)));
            }
        }
        match which {
            0 => {
                eq_opt(m.get_domain_name(), &o, "domain");
                eq_opt(m.get_workstation(), &Some(w), "workstation");
                vp::check(m.negotiate_flags.0 == with(f | bit::OEM_WORKSTATION, bit::OEM_DOMAIN, on), "flags");
                m.set_domain_name(Some("D".to_owned()));
            }
            1 => {
                eq_opt(m.get_domain_name(), &Some(d), "domain");
                eq_opt(m.get_workstation(), &o, "workstation");
                vp::check(m.negotiate_flags.0 == with(f | bit::OEM_DOMAIN, bit::OEM_WORKSTATION, on), "flags");
                m.set_workstation(Some("W".to_owned()));
            }
            _ => {
                eq_opt(c.get_target_name().map(|s| &**s), &o, "target name");
                vp::check(c.negotiate_flags.0 == with(f, bit::REQUEST_TARGET, on), "flags");
            }
        }
        if !on {
            vp::reach("set and cleared");
        }
    }
}
fn c11_counts() {
    vp::expect("added");
    let n = COUNTS[vp::choose("pairs", 40)];
    let l = many_pairs(n, [0, 20][vp::choose("chars", 2)]);
    c11_built(&l);
}
/// The same kind over and over.
fn c11_same() {
    vp::expect("added");
    let id = 1 + vp::choose("kind", 10) as u16;
    let n = [3, 4, 17, 100, 400][vp::choose("pairs", 5)];
    let mut l: Vec<P> = (0..n - 1).map(|i| pair_fixed(id, i)).collect();
    l.push(pair(id, 2, 1));
    c11_built(&l);
}
fn c11_texts() {
    vp::expect("added");
    let n = size("chars", 5000, 1);
    c11_built(&[P::Text(TEXT_IDS[(n + 3 * vp::choose("kind", 2)) % 6], varied_in("name", n, 1, 5, 2)), pair_fixed(2, 0)]);
}
fn c11_built(l: &[P]) {
    let mut m = Challenge::default();
    for p in l {
        p.add(&mut m);
    }
    list_is(&m, l);
    let b = m.encode();
    let d = desc(&b, CHAL_DESC[1]);
    let mut w = l.to_vec();
    w.push(P::Eol);
    vp::check_eq(d.get(&b).unwrap_or(&[]), &wire_list(&w), "list on the wire");
    vp::reach("added");
}
fn c11_env_sizes() {
    vp::expect("filled");
    let n = size("chars", 1100, 1);
    let names = ["COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN"];
    let long = vp::choose("long", 4);
    let mut l = vec![];
    for i in 0..4 {
        let s = if i == long { varied("value", n, 1, 1) } else { vec![0x61 + i as u32] };
        vp::env(names[i], Some(&utf8(&s)));
        let t = if i % 2 == 0 { s.iter().map(|&c| upper(c)).collect() } else { s };
        l.push(P::Text([1u16, 3, 2, 4][i], t));
    }
    let mut m = Challenge::default();
    m.fill_from_env();
    list_is(&m, &l);
    vp::reach("filled");
}

// ---------------------------------------------------------------- the client

/// As `varied_in`, the last character one without case where it is not ASCII (all characters: see the other
/// harnesses).
fn caseless(name: &str, n: usize, mid: usize, last: usize) -> Vec<u32> {
    let s = varied_nul(name, n, 1, mid, last);
    if n > 0 && last > 1 {
        let (from, to) = [(0x5d0, 0x5ea), (0x4e00, 0x9fff), (0x20000, 0x2a6df)][last - 2];
        vp::assume((s[n - 1] >= from) & (s[n - 1] <= to));
    }
    s
}
fn pw_of(m: &Mode, n: usize) -> Vec<u32> {
    caseless("password", n, m.mid, m.last)
}
/// Passwords of any of the sizes, of every kind of character.
fn c14_sizes() {
    let n = size("chars", 5000, 4);
    let m = mode(n, usize::MAX);
    c14([0, 2, 1, 0][m.last - 1], pw_of(&m, n))
}
/// Passwords of ASCII characters at level 0, all of them unconstrained.
fn c14_ascii() {
    let n = [16, 17, 18, 19, 21, 24, 26, 27, 28, 29, 30, 31, 32, 33, 55, 56, 59, 60, 61, 64, 128][vp::choose("pwlen", 21)];
    let mut p: Vec<u32> = vec![0x61; n];
    for i in (0..n).rev().take(3) {
        p[i] = scalar("password", 1);
    }
    c14(0, p)
}
fn c15_sizes() {
    let n = size("chars", 5000, 4);
    let m = mode(n, usize::MAX);
    c15(m.last % 3, pw_of(&m, n))
}
fn c16_sizes() {
    let n = size("chars", 300, 4);
    let m = vp::choose("level", 2);
    c16(m, varied_nul("password", n, 1, 1, 1))
}
/// NTLMv2 with a long user name, domain or password.
fn c17_sizes() {
    let n = size("chars", 5000, 4);
    let m = mode(n, usize::MAX);
    let level = 3 + (n + m.last) % 3;
    let (u, d, p) = match vp::choose("long", 3) {
        0 => (varied_nul("user", n, 1, 1, 1), vec![0x44, 0x64], vec![0x70]),
        1 => (vec![0x75, 0x55], caseless("domain", n, m.mid, m.last), vec![0x70]),
        _ => (vec![0x75, 0x55], vec![0x44, 0x64], pw_of(&m, n)),
    };
    c17(level, u, d, p, if m.other > 0 { vec![P::Bits(2)] } else { vec![] })
}
/// Target information of many pairs, with one or two time stamps somewhere.
fn c17_counts() {
    let s = vp::shard(4);
    let n = COUNTS[4 * vp::choose("pairs", 8) + s];
    let mut l: Vec<P> = many_pairs(n, 0).into_iter().filter(|p| p.id() != 7).collect();
    let k = l.len();
    let at = [usize::MAX, 0, k / 2, k][vp::choose("time", 4)];
    if at <= k {
        l.insert(at, pair(7, 0, 1));
        if vp::flag("two") {
            l.insert(k, pair(7, 0, 1));
        }
    }
    c17(3, vec![0x75], vec![0x44], vec![0x70], l)
}
/// Target information with long text.
fn c17_texts() {
    let n = size("chars", 5000, 2);
    let m = mode(n, usize::MAX);
    let l = vec![P::Text(TEXT_IDS[n % 6], caseless("name", n, m.mid, m.last)), P::Time(1, 2)];
    c17(3 + n % 3, vec![0x75], vec![], vec![0x70], l)
}
/// Names of several characters upper-cased as MS-NLMP has it: by characters beyond ASCII as well.
fn c17_upper_long() {
    vp::expect("answered");
    let (u, up) = [("é", "É"), ("ж", "Ж"), ("𐐨", "𐐀"), ("ÿ", "Ÿ"), ("ω", "Ω"), ("aé", "AÉ"), ("éa", "ÉA")][vp::choose("user", 7)];
    let n = [2, 3, 8, 15, 16, 17, 40, 130][vp::choose("times", 8)];
    let scal = |s: &str| s.repeat(n).chars().map(|c| c as u32).collect::<Vec<u32>>();
    no_host();
    let now = vp::any_clock();
    let sc: [u8; 8] = vp::bytes("sc");
    let ch = chal(bit::UNICODE, None, sc, vec![], None);
    let mut c = client_in(4, &u.repeat(n), "d", "p");
    let h = handshake(&mut *c, ch.msg);
    v2_check(&h.a, &v2_hash(&[0x70], &scal(up), &[0x64]), &sc, &ch.infos, now);
    vp::reach("answered");
}
/// A challenge with something big in it, and a workstation name.
fn big_challenge() -> Chal {
    let flags = [bit::UNICODE, bit::UNICODE | bit::KEY_EXCH | bit::SIGN, 0xe28a_8235][vp::choose("flags", 3)];
    let v = flags & bit::VERSION != 0;
    let (name, infos) = match vp::choose("big", 3) {
        0 => (varied("target", size("chars", 1100, 1), 1, 1), vec![P::Bits(2)]),
        1 => (vec![0x53], vec![P::Text(2, varied_in("name", size("chars", 1100, 1), 1, 5, 1))]),
        _ => (vec![], many_pairs(COUNTS[vp::choose("pairs", 30)], 0)),
    };
    let version = if v { Some(any_version()) } else { None };
    chal(flags, if name.is_empty() { None } else { Some(name) }, vp::bytes("sc"), infos, version)
}
fn c18_sizes() {
    vp::expect("key exchange");
    vp::expect("no key exchange");
    no_host();
    let level = 3 + vp::shard(3);
    vp::any_clock();
    let ch = big_challenge();
    let mut c = client_in(level, "user", "Dom", "pw");
    let h = handshake(&mut *c, ch.msg);
    let s = |s: &str| s.chars().map(|c| c as u32).collect::<Vec<u32>>();
    let hash = v2_hash(&s("pw"), &s("USER"), &s("Dom"));
    vp::check(h.a.f[NT].len() >= 16, "NT response length");
    mic_check(&h, &hmac_md5(&hash, &[&h.a.f[NT][..16]]));
}
/// Long names around the MIC.
fn c18_names() {
    vp::expect("key exchange");
    let n = size("chars", 1100, 2);
    let which = vp::choose("long", 3);
    let long = varied("name", n, 1, 1);
    let s = |i: usize, t: &[u32]| if which == i { long.clone() } else { t.to_vec() };
    let (u, d, w) = (s(0, &[0x75]), s(1, &[0x64]), s(2, &[0x77]));
    no_host();
    vp::env("COMPUTERNAME", Some(&utf8(&w)));
    vp::any_clock();
    let f = [bit::UNICODE, bit::UNICODE | bit::KEY_EXCH | bit::SEAL | bit::VERSION][vp::choose("flags", 2)];
    let version = if f & bit::VERSION != 0 { Some(any_version()) } else { None };
    let ch = chal(f, None, vp::bytes("sc"), vec![], version);
    let mut c = client_in(3 + n % 3, &utf8_str(&u), &utf8_str(&d), "p");
    let h = handshake(&mut *c, ch.msg);
    let hash = v2_hash(&[0x70], &upper_ascii(&u), &d);
    vp::check(h.a.f[NT].len() >= 16, "NT response length");
    mic_check(&h, &hmac_md5(&hash, &[&h.a.f[NT][..16]]));
    let h = handshake(&mut *c, chal(f, None, vp::bytes("sc2"), vec![], None).msg);
    vp::check(h.a.f[NT].len() >= 16, "NT response length");
    mic_check(&h, &hmac_md5(&hash, &[&h.a.f[NT][..16]]));
}
/// Rounds of one negotiation, some challenges and some answers each.
fn c19_rounds(level: usize, rounds: usize, each: usize) {
    vp::expect("answered");
    no_host();
    vp::any_clock();
    let hash = if level < 3 { nt_hash(&[0x70]) } else { v2_hash(&[0x70], &[0x55], &[]) };
    let mut c = client_in(level, "u", "", "p");
    for r in 0..rounds {
        c.neg();
        let mut first: Option<[u8; 8]> = None;
        for i in 0..vp::choose("challenges", each + 1) {
            let sc: [u8; 8] = vp::bytes("sc");
            first = first.or(Some(sc));
            c.chal(plain(bit::UNICODE | [0, bit::TARGET_INFO, bit::NTLM][(r + i) % 3], sc));
        }
        if let Some(sc) = first {
            for i in 0..vp::choose("answers", each + 1) {
                let a = read_auth(c.auth());
                if level < 3 {
                    vp::check_eq(&a.f[NT], &desl(&hash, &sc), "answer to another challenge");
                } else {
                    vp::check(a.f[NT].len() >= 44, "NT response length");
                    let p = hmac_md5(&hash, &[&sc, &a.f[NT][16..]]);
                    vp::check(vp::same(&p, &a.f[NT][..16]), "answer to another challenge");
                }
                vp::reach("answered");
                if i == 0 && vp::flag("late") {
                    c.chal(plain(bit::UNICODE, vp::bytes("late")));
                }
            }
        }
    }
    if vp::flag("end") {
        c.neg();
        vp::may_panic(true);
        let b = c.auth();
        vp::may_panic(false);
        vp::check(b.is_empty(), "AUTHENTICATE without an accepted challenge");
    }
}
fn c20_sizes() {
    vp::expect("negotiated");
    no_host();
    let n = size("chars", 65535, 4);
    let m = mode(n, 65532);
    let level = (n + 2 * m.last + 3 * vp::choose("level", 2)) % 6;
    let d = caseless("domain", n, m.mid, m.last);
    let mut c = client_in(level, "u", &utf8_str(&d), "p");
    let b = c.neg();
    neg_check(&b, level, &utf8(&d));
    vp::check_eq(&c.neg(), &b, "another NEGOTIATE the second time");
}
/// The NEGOTIATE of a client that already went through whole handshakes.
fn c20_again(times: usize) {
    vp::expect("negotiated");
    vp::any_clock();
    no_host();
    let level = vp::choose("level", 6);
    let d = [&[][..], &[0x44]][vp::choose("domain", 2)];
    let mut c = client_in(level, "u", &string(d), "p");
    let first = c.neg();
    neg_check(&first, level, &utf8(d));
    for i in 0..times {
        let f = [0u32, bit::UNICODE | bit::TARGET_INFO, 0xe28a_8235 & !bit::VERSION, !bit::VERSION][vp::choose("flags", 4)];
        c.chal(chal(f, Some(vec![0x54]), vp::bytes("sc"), vec![P::Bits(i as u32 & 3)], None).msg);
        for _ in 0..vp::choose("answers", 3) {
            c.auth();
        }
        vp::check_eq(&c.neg(), &first, "another NEGOTIATE another time");
    }
}
/// Every pattern of separators and letters.
fn c21_patterns(n: usize) {
    vp::expect("presented");
    no_host();
    vp::any_clock();
    let k = 1 + vp::shard(n);
    let mut s = vec![];
    for i in 0..k {
        s.push([0x61 + i as u32, 0x40, 0x5c][vp::choose("char", 3)]);
    }
    let (u, d) = split(&s);
    let mut c = client([0, 1, 3][s.len() % 3], &utf8_str(&s), "p");
    let b = c.neg();
    neg_domain(&b, &d);
    c.chal(plain(bit::UNICODE, [1; 8]));
    identity_check(&read_auth(c.auth()), &u, &d, &[]);
}
fn neg_domain(b: &[u8], d: &[u32]) {
    let x = desc(b, NEG_DESC[0]);
    vp::check_eq(x.get(b).unwrap_or(&[]), &utf8(d), "domain of the NEGOTIATE message");
}
/// Long names with separators in them, and long names given apart.
fn c21_sizes() {
    vp::expect("presented");
    no_host();
    vp::any_clock();
    let n = size("chars", 5000, 4);
    let m = mode(n, usize::MAX);
    let long = caseless("name", n, m.mid, m.last);
    for i in [0, n - 1] {
        vp::assume((long[i] != 0x40) & (long[i] != 0x5c));
    }
    // the fixed characters between include both
    let long: Vec<u32> = long.into_iter().map(|c| if c == 0x40 || c == 0x5c { 0x2d } else { c }).collect();
    let short = vec![0x73, 0xe9];
    let join = |a: &[u32], s: u32, b: &[u32]| {
        let mut v = a.to_vec();
        v.push(s);
        v.extend_from_slice(b);
        v
    };
    let name = match vp::choose("form", 6) {
        0 => long.clone(),
        1 => join(&long, 0x40, &short),
        2 => join(&short, 0x40, &long),
        3 => join(&long, 0x5c, &short),
        4 => join(&short, 0x5c, &long),
        _ => join(&join(&short, 0x40, &long), 0x5c, &join(&long, 0x40, &short)),
    };
    let (u, d) = split(&name);
    let mut c = client((n + m.last) % 6, &utf8_str(&name), "p");
    let h = handshake(&mut *c, plain(bit::UNICODE, [1; 8]));
    identity_check(&h.a, &u, &d, &[]);
}
fn c21_long() {
    vp::expect("presented");
    no_host();
    vp::any_clock();
    let n = size("chars", 32767, 4);
    let m = mode(n, 32766);
    let which = vp::choose("long", 3);
    let long = caseless("name", n, m.mid, m.last);
    let s = |i: usize, t: &[u32]| if which == i { long.clone() } else { t.to_vec() };
    let (u, d, w) = (s(0, &[0x75, 0x40]), s(1, &[0x64]), s(2, &[0x77]));
    if which == 2 {
        vp::assume((w[0] != 0) & (w[n - 1] != 0));
    }
    vp::env("COMPUTERNAME", Some(&utf8(&w)));
    let level = (n + m.last) % 6;
    let mut c = client_in(level, &utf8_str(&u), &utf8_str(&d), "p");
    let f = [bit::UNICODE, bit::UNICODE | bit::KEY_EXCH | bit::SEAL | bit::ESS][vp::choose("flags", 2)];
    let h = handshake(&mut *c, plain(f, [1; 8]));
    identity_check(&h.a, &u, &d, &w);
}
/// Draws over many answers.
fn c22_many(level: usize) {
    vp::expect("both");
    no_host();
    vp::any_clock();
    let mut c = client_in(level, "u", "", "p");
    let f = bit::UNICODE | bit::KEY_EXCH | bit::SIGN | [0, bit::ESS][vp::choose("ess", 2)];
    let mut seen: Vec<Vec<u8>> = vec![];
    for _ in 0..3 {
        let sc: [u8; 8] = vp::bytes("sc");
        c.neg();
        c.chal(plain(f, sc));
        for _ in 0..1 + vp::choose("answers", 3) {
            let n = vp::draws().len();
            let b = c.auth();
            let h = Hs { neg: vec![], chal: vec![], a: read_auth(b), drawn: drawn(n) };
            fresh(&h, level, f, &sc, &[0x70]);
            seen.push(h.drawn);
        }
    }
    if level >= 3 || f & bit::ESS != 0 {
        vp::check(seen.iter().all(|d| d.len() >= 24), "too little drawn for an answer");
    }
}
/// Passwords of any of the sizes against a short one.
fn c23_sizes() {
    let n = size("chars", 5000, 4);
    let m = mode(n, usize::MAX);
    let level = (n + m.last + 3 * vp::choose("level", 2)) % 6;
    c23_pair(level, [bit::UNICODE | bit::KEY_EXCH | bit::SIGN, 0xe28a_8235, bit::LM_KEY | bit::OEM][n % 3], pw_of(&m, n))
}
/// The fixed passwords people have.
fn c23_words() {
    let w = ["", " ", "password", "PASSWORD", "Password1", "12345678", "123456789012345", "guest", "anonymous", "\u{e9}", "u", "d", "\t", "pass word", "p@ss\\word"];
    let p = w[vp::choose("word", w.len())];
    c23_pair(vp::choose("level", 6), vp::u32_("flags"), p.chars().map(|c| c as u32).collect())
}
/// COMPUTERNAME and host names of any of the sizes.
fn c24_env_sizes() {
    vp::expect("started");
    let n = size("chars", 5000, 4);
    let m = mode(n, usize::MAX);
    let s = caseless("ws", n, m.mid, m.last);
    vp::assume((s[0] != 0) & (s[n - 1] != 0));
    vp::env("COMPUTERNAME", Some(&utf8(&s)));
    vp::host(b"other");
    vp::check_eq(&ws_of([0, 1, 3, 5][m.last - 1]), &utf16le(&s), "workstation");
}
fn c24_host_sizes() {
    vp::expect("started");
    vp::env("COMPUTERNAME", None);
    let n = size("chars", 10000, 4);
    let mut s: Vec<u32> = varied("host", n, 1, 1);
    for i in [0, n - 1] {
        vp::assume((s[i] != 0x2e) & (s[i] > 0x20));
    }
    for c in s.iter_mut().skip(1).take(n.saturating_sub(2)) {
        if *c == 0x2e {
            *c = 0x2d
        }
    }
    let w: Vec<u32> = s.iter().map(|&c| upper(c)).collect();
    let mut f = utf8(&s);
    match vp::choose("then", 5) {
        0 => {}
        1 => f.push(b'\n'),
        2 => f.extend_from_slice(b".example.org\n"),
        3 => f.extend_from_slice(b"\nother\n"),
        _ => {
            f.push(b'.');
            f.extend_from_slice(&vec![b'x'; 9000]);
        }
    }
    vp::host(&f);
    vp::check_eq(&ws_of(3), &utf16le(&w), "workstation");
}
/// User names, domains, passwords and targets of any of the sizes.
fn c24_sizes() {
    vp::expect("started");
    no_host();
    let n = size("chars", 65535, 4);
    let m = mode(n, 65532);
    let s = caseless("text", n, m.mid, m.last);
    match vp::choose("place", 4) {
        0 => starts([0, 3][n % 2], "u", None, &utf8_str(&s)),
        1 => starts([0, 3][n % 2], "u", Some(&utf8_str(&s)), "p"),
        2 => starts([0, 3][n % 2], &utf8_str(&varied("text", n, 1, 1)), None, "p"),
        _ => {
            let mut c = http_ntlm::client::Client::<L<3>>::new("u".to_owned(), "p".to_owned(), utf8_str(&s));
            vp::check(c.send_negociate().len() >= 32, "NEGOTIATE message too short");
            vp::reach("started");
        }
    }
}
fn c25_sizes() {
    vp::expect("decoded");
    no_host();
    vp::any_clock();
    let level = vp::shard(6);
    let ch = big_challenge();
    let mut c = client_in(level, "u", "D", "p");
    let f = ch.flags;
    let h = handshake(&mut *c, ch.msg);
    coherent(&h.a, f);
}
fn c25_names() {
    vp::expect("decoded");
    let n = size("chars", 5000, 2);
    let which = vp::choose("long", 3);
    let long = varied_in("name", n, 1, [1, 5][n % 2], 1);
    let s = |i: usize, t: &[u32]| if which == i { long.clone() } else { t.to_vec() };
    let (u, d, w) = (s(0, &[0x75]), s(1, &[0x64]), s(2, &[0x77]));
    no_host();
    vp::env("COMPUTERNAME", Some(&utf8(&w)));
    vp::any_clock();
    let f = [bit::UNICODE, bit::OEM | bit::KEY_EXCH | bit::SEAL, 0xe28a_8235][vp::choose("flags", 3)];
    let version = if f & bit::VERSION != 0 { Some(any_version()) } else { None };
    let mut c = client_in(n % 6, &utf8_str(&u), &utf8_str(&d), "p");
    let h = handshake(&mut *c, chal(f, None, vp::bytes("sc"), vec![], version).msg);
    coherent(&h.a, f);
}

// ---------------------------------------------------------------- C26

/// Messages of many sizes into writers that take pieces of many sizes, or fail somewhere.
fn c26_sizes() {
    let n = [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1024, 2000, 4100]
        [vp::choose("chars", 27)];
    let long = varied("long", n, 1, 1);
    match vp::shard(8) {
        0 => pieces(&neg_of(long, vec![0x57], true).msg),
        1 => pieces(&neg_of(vec![0x44], long, false).msg),
        2 => pieces(&chal_of(long, vec![P::Bits(1)], true).msg),
        3 => pieces(&chal_of(vec![0x53], vec![P::Text(2, long), P::Time(1, 2)], false).msg),
        4 => pieces(&chal_of(vec![0x53], many_pairs(n.min(128), 0), true).msg),
        5 => {
            let sh = AuthShape { lm: 2, nt: 3, chars: [1, 1, 1], key: true, version: n % 2 == 0 };
            let mut a = build_auth(&sh, 1, vec![P::Text(1, vec![0x41]), P::Eol]);
            set_text(&mut a, n % 3, long);
            pieces(&a.msg)
        }
        6 => pieces(&UnicodeString::from(string(&varied_in("long", n, 1, 5, 3)))),
        _ => match vp::choose("type", 3) {
            0 => pieces(&P::Text(3, long).av()),
            1 => pieces(&OEMString::from(string(&long))),
            _ => pieces(&Nt::V2(Some([9; 16]), (1, 2), [3; 8], vec![P::Text(2, long), P::Eol]).value()),
        },
    }
}
fn pieces<T: Codec>(v: &T) {
    vp::expect("short writes");
    vp::expect("failure reported");
    let whole = v.encode();
    let k = whole.len();
    let chunk = [1, 2, 7, 8, 16, 31, 64, 128, 255, 256, 500, 1024][vp::choose("piece", 12)];
    let at = [usize::MAX, 0, k / 3, k / 2, k - 1][vp::choose("at", 5)];
    let mut w = Faulty { out: vec![], chunk, fail_at: at, mode: at % 2 };
    let r = v.encode_into(&mut w);
    if at == usize::MAX {
        vp::check(r.is_ok(), "short writes are reported as an error");
        vp::check(r.ok() == Some(k), "reported size");
        vp::check_eq(&w.out, &whole, "short writes change the bytes");
        vp::reach("short writes");
    } else {
        vp::check(r.is_err(), "a failing writer's error is swallowed");
        vp::check(w.out.len() == at && vp::same(&w.out, &whole[..at]), "bytes before the failure differ");
        vp::reach("failure reported");
    }
}

// ---------------------------------------------------------------- C28

/// One payload of any of the sizes, decoded, encoded and decoded again.
fn c28_sizes(kind: usize) {
    let (version, _, i, w, _) = payload(kind);
    let gap = [0, 3][vp::choose("gap", 2)];
    super::survive::message(kind, &placed(kind, version, i, &w, gap, 0).b);
}

// ---------------------------------------------------------------- C32, C33

/// Long text, long lists.
fn c32_sizes() {
    vp::expect("printed");
    let n = size("chars", 4097, 4);
    let m = vp::choose("what", 6);
    if m < 2 {
        let s = string(&varied_in("text", n, 1, [5, 1][m], 1));
        let (u, o) = (UnicodeString::from(s.as_str()), OEMString::from(s.as_str()));
        vp::check_eq(format!("{}", u).as_bytes(), s.as_bytes(), "long text not shown as it is");
        vp::check_eq(format!("{}", o).as_bytes(), s.as_bytes(), "long text not shown as it is");
    } else {
        // in a message
        let t: Vec<u32> = (0..n as u32).map(|i| 0x41 + (i * 7 + i / 26) % 26).collect();
        let s = string(&t);
        let quoted = format!("{:?}", s);
        let shown = match m {
            2 => format!("{:?}", UnicodeString::from(s.as_str())),
            3 => format!("{:#?}", OEMString::from(s.as_str())),
            4 => {
                let mut a = Authenticate::default();
                a.user = Some(s.as_str().into());
                format!("{:?}", a)
            }
            _ => {
                let infos = if n < 130 { many_fixed(n) } else { vec![P::Text(2, t)] };
                let c = chal(bit::UNICODE, Some(vec![0x53]), [1; 8], infos, None);
                let f = format!("{:?}", c.msg);
                if n < 130 {
                    vp::check(f.matches("MsvAv").count() >= n, "pairs not shown");
                    quoted.clone()
                } else {
                    f
                }
            }
        };
        if m < 4 {
            vp::check_eq(shown.as_bytes(), quoted.as_bytes(), "long text not quoted");
        } else {
            vp::check(shown.contains(&quoted), "long text not shown in a message");
        }
    }
    vp::reach("printed");
}
fn many_fixed(n: usize) -> Vec<P> {
    (0..n).map(|i| pair_fixed(1 + (i * 3 % 10) as u16, i)).collect()
}
/// Long text or a long list, and the same with one character or pair changed, added or removed.
fn c33_sizes() {
    super::more::expect_both();
    let n = size("chars", 4097, 8);
    let a = varied("text", n, 1, 1);
    let mut b = a.clone();
    let at = [0, n / 3, n / 2, n - 1][vp::choose("at", 4)];
    match vp::choose("edit", 3) {
        0 => b[at] = scalar("other", 1),
        1 => {
            b.remove(at);
        }
        _ => b.insert(at, scalar("other", 1)),
    }
    let (x, y) = (utf8(&a), utf8(&b));
    let same = x.len() == y.len() && vp::same(&x, &y);
    let (s, t) = (string(&a), string(&b));
    match vp::choose("what", 5) {
        0 => super::more::alike(UnicodeString::from(s), UnicodeString::from(t), same),
        1 => super::more::alike(OEMString::from(s), OEMString::from(t), same),
        2 => super::more::alike(AvPair::MsvAvTargetName(s), AvPair::MsvAvTargetName(t), same),
        3 => {
            let f = |s: Vec<u32>| chal(bit::UNICODE, None, [1; 8], vec![P::Text(1, s)], None).msg;
            super::more::alike(f(a), f(b), same)
        }
        _ => {
            let f = |s: String| {
                let mut m = Authenticate::default();
                m.user = Some(s.into());
                m
            };
            super::more::alike(f(s), f(t), same)
        }
    }
}
fn c33_counts() {
    super::more::expect_both();
    let s = vp::shard(4);
    let n = COUNTS[4 * vp::choose("pairs", 10) + s].min(300);
    let a: Vec<P> = (0..n).map(|i| if i % 2 == 0 { P::Bits(i as u32 & 7) } else { P::Time(i as u32, 5) }).collect();
    let mut b = a.clone();
    if n > 0 {
        let at = [0, n / 3, n / 2, n - 1][vp::choose("at", 4)];
        match vp::choose("edit", 4) {
            0 => b[at] = P::Time(vp::u32_("low"), 5),
            1 => {
                b.remove(at);
            }
            2 => b.insert(at, P::Bits((vp::u8_("bits") & 7) as u32)),
            _ => {
                let l = vp::choose("with", n.min(2));
                b.swap(at, l)
            }
        }
    }
    let (x, y) = (wire_list(&a), wire_list(&b));
    let same = x.len() == y.len() && vp::same(&x, &y);
    let (a, b): (Vec<AvPair>, Vec<AvPair>) = (a.iter().map(|p| p.av()).collect(), b.iter().map(|p| p.av()).collect());
    let v = |l| Ntv2Challenge { timestamp: FileTime { low: 1, high: 2 }, challenge_from_client: [1; 8].into(), target_infos: l };
    super::more::alike(v(a), v(b), same);
}

// ---------------------------------------------------------------- registration

fn ex<T>(label: &str, f: impl Fn(T), x: impl Fn() -> T) {
    vp::expect(label);
    f(x())
}
const RT: &str = "round trip";
const RD: &str = "read";

harnesses! {
    h_c02_sizes => || ex(RT, |m| neg_round(&m), || neg_sizes(65535, 4));
    h_c02_far => || ex(RT, |m| neg_round(&m), neg_far);
    h_c03_names => || ex(RT, |m| chal_round(&m), || chal_names(32767, 4));
    h_c03_texts => || ex(RT, |m| chal_round(&m), || chal_texts(32763, 4));
    h_c03_counts => || ex(RT, |m| chal_round(&m), chal_counts);
    h_c03_same => || ex(RT, |m| chal_round(&m), chal_same);
    h_c03_far => || ex(RT, |m| chal_round(&m), chal_far);
    h_c04_sizes => || ex(RT, |m| auth_round(&m), || auth_sizes(32767, 4));
    h_c04_far => || ex(RT, |m| auth_round(&m), auth_far);
    h_c04_counts => || ex(RT, |m| auth_round(&m), auth_counts);
    h_c04_texts => || ex(RT, |m| auth_round(&m), || auth_texts(30000, 2));
    h_c05_neg_sizes => || ex(RD, |m| c05_neg_one(&m), || neg_sizes(65535, 4));
    h_c05_neg_far => || ex(RD, |m| c05_neg_one(&m), neg_far);
    h_c05_chal_names => || ex(RD, |m| c05_chal_one(&m), || chal_names(32767, 4));
    h_c05_chal_texts => || ex(RD, |m| c05_chal_one(&m), || chal_texts(32763, 4));
    h_c05_chal_counts => || ex(RD, |m| c05_chal_one(&m), chal_counts);
    h_c05_chal_far => || ex(RD, |m| c05_chal_one(&m), chal_far);
    h_c05_auth_sizes => || ex(RD, |m| c05_auth_one(&m), || auth_sizes(32767, 4));
    h_c05_auth_far => || ex(RD, |m| c05_auth_one(&m), auth_far);
    h_c05_auth_counts => || ex(RD, |m| c05_auth_one(&m), auth_counts);

    h_c01_counts => c01_counts;
    h_c01_texts => c01_texts;
    h_c01_oem_sizes => c01_oem;
    h_c01_neg_sizes => || c01_messages(0);
    h_c01_chal_sizes => || c01_messages(1);
    h_c01_auth_sizes => || c01_messages(2);
    h_c06_neg_sizes => || c06_sizes(0);
    h_c06_chal_sizes => || c06_sizes(1);
    h_c06_auth_sizes => || c06_sizes(2);
    h_c07_neg_sizes => || c07_sizes(0);
    h_c07_chal_sizes => || c07_sizes(1);
    h_c07_auth_sizes => || c07_sizes(2);
    h_c07_counts => c07_counts;
    h_c08_sizes => c08_sizes;
    h_c08_counts => c08_counts;
    h_c09_sizes => c09_sizes;
    h_c09_unpaired => c09_unpaired;
    h_c10_sizes => c10_sizes;
    h_c11_counts => c11_counts;
    h_c11_same => c11_same;
    h_c11_texts => c11_texts;
    h_c11_env_sizes => c11_env_sizes;

    h_c14_sizes => c14_sizes;
    h_c14_ascii => c14_ascii;
    h_c15_sizes => c15_sizes;
    h_c16_sizes => c16_sizes;
    h_c17_sizes => c17_sizes;
    h_c17_counts => c17_counts;
    h_c17_texts => c17_texts;
    h_c17_upper_long => c17_upper_long;
    h_c18_sizes => c18_sizes;
    h_c18_names => c18_names;
    h_c19_rounds1 => || c19_rounds(1, 3, 2);
    h_c19_rounds3 => || c19_rounds(3, 2, 2);
    ht_c19_rounds4 => || c19_rounds(4, 3, 3);
    h_c20_sizes => c20_sizes;
    h_c20_again => || c20_again(2);
    ht_c20_again => || c20_again(3);
    h_c21_patterns => || c21_patterns(6);
    ht_c21_patterns => || c21_patterns(9);
    h_c21_sizes => c21_sizes;
    h_c21_long => c21_long;
    h_c22_many1 => || c22_many(1);
    h_c22_many3 => || c22_many(3);
    h_c23_sizes => c23_sizes;
    h_c23_words => c23_words;
    h_c24_env_sizes => c24_env_sizes;
    h_c24_host_sizes => c24_host_sizes;
    h_c24_sizes => c24_sizes;
    h_c25_sizes => c25_sizes;
    h_c25_names => c25_names;
    h_c26_sizes => c26_sizes;
    h_c28_neg_sizes => || c28_sizes(0);
    h_c28_chal_sizes => || c28_sizes(1);
    h_c28_auth_sizes => || c28_sizes(2);
    h_c32_sizes => c32_sizes;
    h_c33_sizes => c33_sizes;
    h_c33_counts => c33_counts;
}
