//! C30: the MIC of any messages. C31: random values. C32: printing. C33: equality and copies.
use super::client::*;
use super::structs::*;
use crate::kit::*;
use crate::spec::*;
use crate::vp;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::verif_hooks::{Codec, OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};

// ---------------------------------------------------------------- C30

/// Everything but the MIC.
fn same_but_mic(a: &Authenticate, b: &Authenticate) -> bool {
    let (mut x, mut y) = (a.encode(), b.encode());
    if x.len() != y.len() {
        return false;
    }
    let at = if a.version.is_some() { 72 } else { 64 };
    for i in 0..16 {
        x[at + i] = 0;
        y[at + i] = 0;
    }
    vp::same(&x, &y)
}
fn mic_over(n: &Negotiate, c: &Challenge, a: &Authenticate, key: Option<[u8; 16]>) {
    let mut m = a.clone();
    m.exported_session_key = key.map(|k| k.into());
    let (wn, wc) = (n.encode(), c.encode());
    m.compute_mic(n, c);
    vp::check(same_but_mic(a, &m), "computing the MIC changes the message");
    vp::check_eq(&n.encode(), &wn, "computing the MIC changes the NEGOTIATE message");
    vp::check_eq(&c.encode(), &wc, "computing the MIC changes the CHALLENGE message");
    match key {
        None => {
            vp::check_eq(&m.mic, &a.mic, "a MIC without a session key");
            vp::reach("no key");
        }
        Some(k) => {
            let mut z = a.encode();
            let at = if a.version.is_some() { 72 } else { 64 };
            for i in 0..16 {
                z[at + i] = 0;
            }
            let want = hmac_md5(&k, &[&wn, &wc, &z]);
            vp::observe("mic", &m.mic);
            vp::check_eq(&m.mic, &want, "MIC");
            vp::check(m.exported_session_key.as_ref().map_or(false, |x| vp::same(x, &k)), "session key changed");
            m.compute_mic(n, c);
            vp::check_eq(&m.mic, &want, "MIC computed again");
            vp::reach("computed");
        }
    }
}
fn c30(key: bool) {
    vp::expect(if key { "computed" } else { "no key" });
    let s = vp::shard(6);
    let n = any_neg(s & 1, 1 - (s & 1), 1);
    let infos = if s % 3 == 0 { 0 } else { 1 };
    let c = any_chal(s % 3 % 2, infos, 1, 1);
    let sh = AuthShape {
        lm: s % 3,
        nt: [1, 3, 0, 2, 3, 1][s],
        chars: [[0, 0, 0], [1, 1, 0], [0, 2, 1], [1, 0, 1], [1, 1, 1], [2, 1, 0]][s],
        key: vp::flag("haskey"),
        version: vp::flag("withversion"),
    };
    let a = build_auth(&sh, 1, vec![P::Text(2, vec![0x58]), P::Bits(2), P::Eol]);
    mic_over(&n.msg, &c.msg, &a.msg, if key { Some(vp::bytes("exported")) } else { None });
}
/// Messages of all sizes.
fn c30_sizes() {
    vp::expect("computed");
    let k = size("chars", 8000, 8);
    let mut n = Negotiate::default();
    n.set_domain_name(Some(string(&varied_ascii("domain", k))));
    let c = chal(vp::u32_("flags") & !bit::VERSION, Some(varied("target", k, 1, 2)), vp::bytes("sc"), vec![], None);
    let mut a = Authenticate::default();
    a.user = Some(string(&varied_ascii("user", k)).into());
    a.mic = vp::bytes::<16>("mic").into();
    mic_over(&n, &c.msg, &a, Some(vp::bytes("exported")));
}
/// A server that decodes what it gets recomputes the MIC the client sent.
fn c30_server() {
    vp::expect("verified");
    vp::env("COMPUTERNAME", Some(b"PC"));
    vp::any_clock();
    let level = 3 + vp::choose("level", 3);
    let mut c = client_in(level, "u", "D", "p");
    let ch = any_chal(1, 1, 1, 1);
    let h = handshake(&mut *c, ch.msg.clone());
    let sbk = hmac_md5(&v2_hash(&[0x70], &[0x55], &[0x44]), &[&h.a.f[NT][..16]]);
    let exported = if h.a.f[KEY].len() == 16 {
        let mut e = [0u8; 16];
        e.copy_from_slice(&h.a.f[KEY]);
        rc4_16(&sbk, &e)
    } else {
        sbk
    };
    match (Negotiate::decode(&h.neg), Challenge::decode(&h.chal), Authenticate::decode(&h.a.bytes)) {
        (Some((n, _)), Some((c, _)), Some((a, _))) => {
            let mut m = a.clone();
            m.exported_session_key = Some(exported.into());
            m.compute_mic(&n, &c);
            vp::check_eq(&m.mic, h.a.mic(), "the server computes another MIC");
            vp::check_eq(&a.mic, h.a.mic(), "decoded MIC");
            vp::reach("verified");
        }
        _ => vp::check(false, "a message of the handshake does not decode"),
    }
}

// ---------------------------------------------------------------- C31

fn draw(f: &dyn Fn() -> Vec<u8>, n: usize) {
    vp::expect("drawn");
    let mut all: Vec<Vec<u8>> = vec![];
    let since = vp::draws().len();
    for _ in 0..3 {
        let k = vp::draws().len();
        let v = f();
        vp::observe("random", &v);
        vp::check(v.len() == n, "size of a random value");
        vp::check(part_of(&drawn(k), &v), "random value not freshly drawn");
        all.push(v);
    }
    // no draw serves two values
    vp::check(drawn(since).len() >= 3 * n, "too little drawn");
    vp::reach("drawn");
}
fn c31() {
    match vp::choose("type", 11) {
        0 => draw(&|| ServerChallenge::random().to_vec(), 8),
        1 => draw(&|| ClientChallenge::random().to_vec(), 8),
        2 => draw(&|| SessionBaseKey::random().to_vec(), 16),
        3 => draw(&|| KeyExchangeKey::random().to_vec(), 16),
        4 => draw(&|| ExportedSessionKey::random().to_vec(), 16),
        5 => draw(&|| EncryptedRandomSessionKey::random().to_vec(), 16),
        6 => draw(&|| NtProofStr::random().to_vec(), 16),
        7 => draw(&|| Response16::random().to_vec(), 16),
        8 => draw(&|| Response24::random().to_vec(), 24),
        9 => draw(&|| Mic::random().to_vec(), 16),
        _ => draw(&|| RandomPad::random().to_vec(), 4),
    }
}
fn c31_many() {
    vp::expect("drawn");
    let mut n = 0;
    for i in 0..600 {
        let k = vp::draws().len();
        let v = match i % 3 {
            0 => ServerChallenge::random().to_vec(),
            1 => ExportedSessionKey::random().to_vec(),
            _ => ClientChallenge::random().to_vec(),
        };
        n += v.len();
        vp::check(part_of(&drawn(k), &v), "random value not freshly drawn");
    }
    vp::check(drawn(0).len() >= n, "too little drawn");
    vp::reach("drawn");
}

// ---------------------------------------------------------------- C32

const NAMES: [&str; 32] = [
    "NTLMSSP_NEGOTIATE_UNICODE",
    "NTLM_NEGOTIATE_OEM",
    "NTLMSSP_REQUEST_TARGET",
    "R10",
    "NTLMSSP_NEGOTIATE_SIGN",
    "NTLMSSP_NEGOTIATE_SEAL",
    "NTLMSSP_NEGOTIATE_DATAGRAM",
    "NTLMSSP_NEGOTIATE_LM_KEY",
    "R9",
    "NTLMSSP_NEGOTIATE_NTLM",
    "R8",
    "NTLMSSP_ANONYMOUS",
    "NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED",
    "NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED",
    "R7",
    "NTLMSSP_NEGOTIATE_ALWAYS_SIGN",
    "NTLMSSP_TARGET_TYPE_DOMAIN",
    "NTLMSSP_TARGET_TYPE_SERVER",
    "R6",
    "NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY",
    "NTLMSSP_NEGOTIATE_IDENTIFY",
    "R5",
    "NTLMSSP_REQUEST_NON_NT_SESSION_KEY",
    "NTLMSSP_NEGOTIATE_TARGET_INFO",
    "R4",
    "NTLMSSP_NEGOTIATE_VERSION",
    "R3",
    "R2",
    "R1",
    "NTLMSSP_NEGOTIATE_128",
    "NTLMSSP_NEGOTIATE_KEY_EXCH",
    "NTLMSSP_NEGOTIATE_56",
];
/// A byte at a time of the word is anything, the rest one of four patterns.
fn c32_flags() {
    vp::expect("printed");
    let rest = [0u32, u32::MAX, 0xe28a_8235, 0xaaaa_5555][vp::shard(4)];
    let at = 8 * vp::choose("byte", 4) as u32;
    let w = rest & !(0xff << at) | (vp::u8_("flags") as u32) << at;
    let s = format!("{:?}", Flags(w));
    vp::observe("text", s.as_bytes());
    let names: Vec<&str> = s.split('|').filter(|x| !x.is_empty()).collect();
    let mut n = 0;
    for (i, name) in NAMES.iter().enumerate() {
        let shown = names.iter().filter(|x| *x == name).count();
        vp::check(shown as u32 == w >> i & 1, "a flag is shown that is not set, or not shown");
        n += shown;
    }
    vp::check(names.len() == n, "something else is shown");
    vp::reach("printed");
}
fn hex(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for &x in b {
        for d in [x >> 4, x & 15] {
            // without branching
            v.push(0x30 + d + 39 * ((d > 9) as u8));
        }
    }
    v
}
fn c32_bytes() {
    vp::expect("printed");
    let at = vp::choose("at", 16);
    let mut b: [u8; 16] = core::array::from_fn(|i| (0x1f * i + 0x0e) as u8);
    b[at] = vp::u8_("byte");
    let mut short = [0u8; 8];
    short.copy_from_slice(&b[8..]);
    let mut long = [0u8; 24];
    long[8..].copy_from_slice(&b);
    let (s, w) = match vp::choose("type", 8) {
        0 => (format!("{:?}", Mic::from(b)), hex(&b)),
        1 => (format!("{:?}", EncryptedRandomSessionKey::from(b)), hex(&b)),
        2 => (format!("{:?}", NtProofStr::from(b)), hex(&b)),
        3 => (format!("{:?}", Response16::from(b)), hex(&b)),
        4 => (format!("{:?}", Response24::from(long)), hex(&long)),
        5 => (format!("{:?}", ServerChallenge::from(short)), hex(&short)),
        6 => (format!("{:#?}", ClientChallenge::from(short)), hex(&short)),
        _ => (format!("{:?}", ExportedSessionKey::from(b)), hex(&b)),
    };
    vp::check_eq(s.as_bytes(), &w, "bytes not shown as hexadecimal digits");
    vp::reach("printed");
}
fn c32_text(n: usize, maxclass: usize) {
    vp::expect("printed");
    let t = text_nul_in("text", vp::choose("chars", n + 1), maxclass);
    let s = string(&t);
    let (a, b) = if vp::flag("utf16") {
        let u: UnicodeString = s.clone().into();
        (format!("{}", u), String::from(u))
    } else {
        let u: OEMString = s.as_str().into();
        (u.to_string(), String::from(u))
    };
    vp::check_eq(a.as_bytes(), s.as_bytes(), "text not shown as it is");
    vp::check_eq(b.as_bytes(), s.as_bytes(), "text not handed out as it is");
    vp::reach("printed");
}
/// Text in a message: quoted, so that it ends where it ends.
fn c32_quoted() {
    vp::expect("printed");
    let t = text("text", 1, 1);
    let s = string(&t);
    let u: UnicodeString = s.clone().into();
    vp::check_eq(format!("{:?}", u).as_bytes(), format!("{:?}", s).as_bytes(), "text not quoted");
    vp::reach("printed");
}
/// Any message, any structure.
fn c32_shown(s: String) {
    vp::check(!s.is_empty(), "nothing shown");
    vp::reach("printed");
}
fn show<T: std::fmt::Debug>(v: &T) {
    c32_shown(if vp::flag("pretty") { format!("{:#?}", v) } else { format!("{:?}", v) });
}
fn c32_neg() {
    vp::expect("printed");
    let domain = opt_text("domain", 1, 1);
    let workstation = opt_text("workstation", 1, 1);
    let mut m = Negotiate::default();
    m.set_domain_name(domain.map(|s| string(&s)));
    m.set_workstation(workstation.map(|s| string(&s)));
    if vp::flag("hasversion") {
        m.version = Some(any_version().0);
    }
    show(&m);
}
fn c32_chal() {
    vp::expect("printed");
    let mut m = Challenge::default();
    for _ in 0..vp::choose("pairs", 2) {
        let x = vp::u8_("value");
        let p = match vp::choose("kind", 10) {
            5 => P::Bits((x & 7) as u32),
            6 => P::Time(x as u32, u32::MAX),
            7 => P::Time(0, (x as u32) << 24),
            8 => P::Host({
                let mut b = [0x63; 48];
                b[vp::choose("at", 48)] = x;
                b
            }),
            9 => P::Bind({
                let mut b = [200; 16];
                b[vp::choose("at", 16)] = x;
                b
            }),
            i => P::Text(TEXT_IDS[i], text("name", vp::choose("chars", 2), 1)),
        };
        p.add(&mut m);
    }
    m.server_challenge = [vp::u8_("sc"), 0, 1, 2, 3, 4, 5, 255].into();
    show(&m);
}
fn c32_auth() {
    vp::expect("printed");
    let mut m = Authenticate::default();
    match vp::choose("what", 6) {
        0 => m.mic = [vp::u8_("mic"); 16].into(),
        1 => {
            m.set_encrypted_random_session_key(Some([7; 16].into()));
        }
        2 => m.lm_challenge_response = Some(lm_value(vp::flag("v1"), &[9; 24])),
        3 => m.nt_challenge_response = Some(Nt::V1([9; 24]).value()),
        4 => {
            let n = Nt::V2(if vp::flag("proof") { Some([1; 16]) } else { None }, (vp::u8_("low") as u32, 5), [6; 8], vec![P::Bits(2), P::Eol]);
            m.nt_challenge_response = Some(n.value());
        }
        _ => {
            m.user = Some("u".into());
            m.exported_session_key = Some([4; 16].into());
        }
    }
    show(&m);
}

// ---------------------------------------------------------------- C33

/// Two values with this content are equal exactly when the content is.
pub fn alike<T: PartialEq + Clone>(a: T, b: T, same: bool) {
    vp::check((a == b) == same, "equality differs from that of the content");
    vp::check((b == a) == same, "equality depends on the order");
    vp::check((a != b) != same, "equality and inequality agree");
    vp::check(a.clone() == a, "a copy differs");
    if same {
        vp::reach("equal");
    } else {
        vp::reach("different");
    }
}
pub fn expect_both() {
    vp::expect("equal");
    vp::expect("different");
}
fn c33_fixed() {
    expect_both();
    match vp::choose("type", 6) {
        0 => {
            let ((a, x), (b, y)) = (any_version(), any_version());
            alike(a, b, vp::same(&x, &y));
        }
        1 => {
            let (a, b): ([u8; 8], [u8; 8]) = (vp::bytes("a"), vp::bytes("b"));
            let f = |x: &[u8; 8]| FileTime { low: le32(x, 0), high: le32(x, 4) };
            alike(f(&a), f(&b), vp::same(&a, &b));
        }
        2 => {
            let (a, b): ([u8; 48], [u8; 48]) = (vp::bytes("a"), vp::bytes("b"));
            alike(single_host(&a), single_host(&b), vp::same(&a, &b));
        }
        3 => {
            let (a, b) = (vp::u32_("a"), vp::u32_("b"));
            alike(Flags(a), Flags(b), a == b);
        }
        4 => {
            let (a, b) = (vp::u8_("a") & 7, vp::u8_("b") & 7);
            alike(av_flags(a as u32), av_flags(b as u32), a == b);
        }
        _ => {
            let (a, b): ([u8; 24], [u8; 24]) = (vp::bytes("a"), vp::bytes("b"));
            alike(response24(a), response24(b), vp::same(&a, &b));
        }
    }
}
fn c33_text(n: usize, maxclass: usize) {
    expect_both();
    let a = text_nul_in("a", vp::choose("achars", n + 1), maxclass);
    let b = text_nul_in("b", vp::choose("bchars", n + 1), maxclass);
    let (x, y) = (utf8(&a), utf8(&b));
    let same = x.len() == y.len() && vp::same(&x, &y);
    if vp::flag("utf16") {
        alike(UnicodeString::from(string(&a)), UnicodeString::from(string(&b)), same);
    } else {
        alike(OEMString::from(string(&a)), OEMString::from(string(&b)), same);
    }
}
fn c33_pairs() {
    expect_both();
    let (a, b) = (any_pair(1, 1), any_pair(1, 1));
    let (x, y) = (a.wire(), b.wire());
    alike(a.av(), b.av(), x.len() == y.len() && vp::same(&x, &y));
}
/// Lists of pairs, in whatever order.
fn c33_lists() {
    expect_both();
    let some = |n: &str| -> Vec<P> {
        (0..vp::choose(n, 3))
            .map(|_| match vp::choose("kind", 3) {
                0 => P::Bits((vp::u8_("bits") & 7) as u32),
                1 => P::Bind(vp::bytes("bind")),
                _ => P::Text(1 + vp::choose("id", 2) as u16, vec![0x41]),
            })
            .collect()
    };
    let (a, b) = (some("a"), some("b"));
    let (x, y) = (wire_list(&a), wire_list(&b));
    let same = x.len() == y.len() && vp::same(&x, &y);
    let f = |l: Vec<P>| chal(bit::UNICODE | bit::TARGET_INFO, None, [1; 8], l, None).msg;
    alike(f(a), f(b), same);
}
fn c33_responses() {
    expect_both();
    let v: [[u8; 24]; 2] = [vp::bytes("a"), vp::bytes("b")];
    let k = [vp::choose("akind", 3), vp::choose("bkind", 3)];
    if vp::flag("lm") {
        let f = |i: usize| lm_value(k[i] == 0, &v[i]);
        alike(f(0), f(1), (k[0] == 0) == (k[1] == 0) && vp::same(&v[0], &v[1]));
    } else {
        let f = |i: usize| -> Nt {
            let t = (le32(&v[i], 0), le32(&v[i], 4));
            let mut cc = [0u8; 8];
            cc.copy_from_slice(&v[i][8..16]);
            match k[i] {
                0 => Nt::V1(v[i]),
                1 => Nt::V2(None, t, cc, vec![P::Bits((v[i][16] & 7) as u32)]),
                _ => Nt::V2(Some([v[i][17]; 16]), t, cc, vec![P::Bits((v[i][16] & 7) as u32)]),
            }
        };
        let (a, b) = (f(0), f(1));
        let (x, y) = (a.wire(), b.wire());
        alike(a.value(), b.value(), k[0] == k[1] && vp::same(&x, &y));
    }
}
/// Messages that differ in one place or not at all.
fn c33_neg() {
    expect_both();
    let a = any_neg(1, 1, 1);
    let mut m = a.msg.clone();
    let x = a.msg.encode();
    match vp::choose("edit", 4) {
        0 => m.negotiate_flags = Flags(vp::u32_("other")),
        1 => {
            let f = m.negotiate_flags;
            m.set_domain_name(opt_text("otherdomain", 1, 1).map(|s| string(&s)));
            m.negotiate_flags = f;
        }
        2 => {
            let f = m.negotiate_flags;
            m.set_workstation(opt_text("otherws", 1, 1).map(|s| string(&s)));
            m.negotiate_flags = f;
        }
        _ => m.version = if vp::flag("otherversion") { Some(any_version().0) } else { None },
    }
    let y = m.encode();
    alike(a.msg, m, x.len() == y.len() && vp::same(&x, &y));
}
fn c33_chal() {
    expect_both();
    let a = any_chal(1, 1, 1, 1);
    let mut m = a.msg.clone();
    let x = a.msg.encode();
    match vp::choose("edit", 5) {
        0 => m.negotiate_flags = Flags(vp::u32_("other")),
        1 => {
            let f = m.negotiate_flags;
            m.set_target_name(opt_text("othername", 1, 1).map(|s| string(&s)));
            m.negotiate_flags = f;
        }
        2 => m.server_challenge = vp::bytes::<8>("othersc").into(),
        3 => {
            let f = m.negotiate_flags;
            any_pair(1, 1).add(&mut m);
            m.negotiate_flags = f;
        }
        _ => m.version = if vp::flag("otherversion") { Some(any_version().0) } else { None },
    }
    let y = m.encode();
    alike(a.msg, m, x.len() == y.len() && vp::same(&x, &y));
}
fn c33_auth() {
    expect_both();
    let s = vp::shard(4);
    let sh = AuthShape { lm: s % 3, nt: [1, 3, 0, 2][s], chars: [[1, 1, 1], [0, 1, 0], [0, 0, 0], [1, 0, 1]][s], key: s & 1 == 1, version: s & 2 == 2 };
    let a = build_auth(&sh, 1, vec![P::Eol]);
    let mut m = a.msg.clone();
    let x = a.msg.encode();
    let mut kind = true;
    match vp::choose("edit", 9) {
        0 => m.negotiate_flags = Flags(vp::u32_("other")),
        1 => m.mic = vp::bytes::<16>("othermic").into(),
        2 => m.domain = opt_text("otherdomain", 1, 1).map(|s| string(&s).into()),
        3 => m.user = opt_text("otheruser", 1, 1).map(|s| string(&s).into()),
        4 => m.workstation = opt_text("otherws", 1, 1).map(|s| string(&s).into()),
        5 => {
            let f = m.negotiate_flags;
            m.set_encrypted_random_session_key(if vp::flag("otherkey") { Some(vp::bytes::<16>("k").into()) } else { None });
            m.negotiate_flags = f;
        }
        6 => {
            let v1 = vp::flag("v1");
            kind = v1 == (sh.lm == 1);
            m.lm_challenge_response = Some(lm_value(v1, &vp::bytes("otherlm")));
        }
        7 => m.nt_challenge_response = Some(Nt::V1(vp::bytes("othernt")).value()),
        _ => m.version = if vp::flag("otherversion") { Some(any_version().0) } else { None },
    }
    let y = m.encode();
    alike(a.msg, m, kind && x.len() == y.len() && vp::same(&x, &y));
}

harnesses! {
    h_c30_key => || c30(true);
    h_c30_none => || c30(false);
    h_c30_sizes => c30_sizes;
    h_c30_server => c30_server;
    h_c31_types => c31;
    h_c31_many => c31_many;
    h_c32_flags => c32_flags;
    h_c32_bytes => c32_bytes;
    h_c32_text => || c32_text(2, 4);
    ht_c32_text => || c32_text(3, 4);
    h_c32_quoted => c32_quoted;
    h_c32_neg => c32_neg;
    h_c32_chal => c32_chal;
    h_c32_auth => c32_auth;
    h_c33_fixed => c33_fixed;
    h_c33_text => || c33_text(1, 4);
    ht_c33_text => || c33_text(2, 3);
    h_c33_pairs => c33_pairs;
    h_c33_lists => c33_lists;
    h_c33_responses => c33_responses;
    h_c33_neg => c33_neg;
    h_c33_chal => c33_chal;
    h_c33_auth => c33_auth;
}
