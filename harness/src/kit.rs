//! Unconstrained values of the crate's public types, each with an independent description of what it
//! must look like on the wire, and a client driven through its public interface.
#![allow(dead_code)]
use crate::spec::*;
use crate::vp;
use http_ntlm::client::Client;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::verif_hooks::{Codec, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use http_ntlm::NtlmVersion;

// ---------------------------------------------------------------- AV pairs

#[derive(Clone)]
pub enum P {
    Eol,
    Text(u16, Vec<u32>),
    Bits(u32),
    Time(u32, u32),
    Host([u8; 48]),
    Bind([u8; 16]),
}
/// The identifiers whose value is text.
pub const TEXT_IDS: [u16; 6] = [1, 2, 3, 4, 5, 9];

impl P {
    pub fn id(&self) -> u16 {
        match self {
            P::Eol => 0,
            P::Text(i, _) => *i,
            P::Bits(_) => 6,
            P::Time(..) => 7,
            P::Host(_) => 8,
            P::Bind(_) => 10,
        }
    }
    pub fn value(&self) -> Vec<u8> {
        match self {
            P::Eol => vec![],
            P::Text(_, s) => utf16le(s),
            P::Bits(b) => b.to_le_bytes().to_vec(),
            P::Time(l, h) => {
                let mut v = l.to_le_bytes().to_vec();
                v.extend_from_slice(&h.to_le_bytes());
                v
            }
            P::Host(b) => b.to_vec(),
            P::Bind(b) => b.to_vec(),
        }
    }
    pub fn wire(&self) -> Vec<u8> {
        let v = self.value();
        let mut o = self.id().to_le_bytes().to_vec();
        o.extend_from_slice(&(v.len() as u16).to_le_bytes());
        o.extend_from_slice(&v);
        o
    }
    pub fn av(&self) -> AvPair {
        match self {
            P::Eol => AvPair::MsvAvEOL,
            P::Text(i, s) => {
                let s = string(s);
                match i {
                    1 => AvPair::MsvAvNbComputerName(s),
                    2 => AvPair::MsvAvNbDomainName(s),
                    3 => AvPair::MsvAvDnsComputerName(s),
                    4 => AvPair::MsvAvDnsDomainName(s),
                    5 => AvPair::MsvAvDnsTreeName(s),
                    _ => AvPair::MsvAvTargetName(s),
                }
            }
            P::Bits(b) => AvPair::MsvAvFlags(av_flags(*b)),
            P::Time(l, h) => AvPair::MsvAvTimestamp(FileTime { low: *l, high: *h }),
            P::Host(b) => AvPair::MsvAvSingleHost(single_host(b)),
            P::Bind(b) => AvPair::MsvAvChannelBindings(*b),
        }
    }
    /// Adds the pair to a challenge through the public interface.
    pub fn add(&self, c: &mut Challenge) {
        match self {
            P::Eol => {}
            P::Text(i, s) => {
                let s = string(s);
                match i {
                    1 => c.target_infos_add_computername(s),
                    2 => c.target_infos_add_domainname(s),
                    3 => c.target_infos_add_dnscomputername(s),
                    4 => c.target_infos_add_dnsdomainname(s),
                    5 => c.target_infos_add_dnstreename(s),
                    _ => c.target_infos_add_targetname(s),
                };
            }
            P::Bits(b) => {
                c.target_infos_add_flags(av_flags(*b));
            }
            P::Time(l, h) => {
                c.target_infos_add_timestamp(FileTime { low: *l, high: *h });
            }
            P::Host(b) => {
                c.target_infos_add_singlehost(single_host(b));
            }
            P::Bind(b) => {
                c.target_infos_add_channelbindings(*b);
            }
        }
    }
}
pub fn av_flags(b: u32) -> MsvAvFlags {
    MsvAvFlags {
        account_authentication_constrained: b & 1 != 0,
        mic_present: b & 2 != 0,
        generated_spn_from_untrusted_source: b & 4 != 0,
    }
}
pub fn single_host(b: &[u8; 48]) -> SingleHostData {
    let mut s = SingleHostData { size: le32(b, 0), z4: le32(b, 4), ..Default::default() };
    s.custom_data.copy_from_slice(&b[8..16]);
    s.machine_id.copy_from_slice(&b[16..48]);
    s
}
/// An unconstrained well-formed pair of the given identifier.
pub fn pair(id: u16, n: usize, maxclass: usize) -> P {
    match id {
        0 => P::Eol,
        6 => {
            let b = vp::u8_("avflags");
            vp::assume(b < 8);
            P::Bits(b as u32)
        }
        7 => P::Time(vp::u32_("low"), vp::u32_("high")),
        8 => {
            let mut b: [u8; 48] = vp::bytes("host");
            for i in 4..8 {
                b[i] = 0
            }
            P::Host(b)
        }
        10 => P::Bind(vp::bytes("bind")),
        i => P::Text(i, text("name", n, maxclass)),
    }
}
/// Any kind of pair; texts of at most `n` characters.
pub fn any_pair(n: usize, maxclass: usize) -> P {
    let id = vp::choose("kind", 11) as u16;
    let k = if TEXT_IDS.contains(&id) { vp::choose("chars", n + 1) } else { 0 };
    pair(id, k, maxclass)
}
pub fn wire_list(l: &[P]) -> Vec<u8> {
    let mut v = vec![];
    for p in l {
        v.extend_from_slice(&p.wire());
    }
    v
}

// ---------------------------------------------------------------- versions

/// A version structure with its 8 bytes.
pub fn any_version() -> (Version, [u8; 8]) {
    let b: [u8; 4] = vp::bytes("version");
    let v = Version { major: b[0], minor: b[1], build: le16(&b, 2), revision_count: 15 };
    (v, [b[0], b[1], b[2], b[3], 0, 0, 0, 15])
}

// ---------------------------------------------------------------- messages

pub struct Neg {
    pub msg: Negotiate,
    pub flags: u32,
    pub domain: Option<Vec<u32>>,
    pub workstation: Option<Vec<u32>>,
    pub version: Option<[u8; 8]>,
}
/// Absent, or non-empty text of at most `n` characters.
pub fn opt_text(name: &str, n: usize, maxclass: usize) -> Option<Vec<u32>> {
    let k = vp::choose("chars", n + 1);
    if k == 0 {
        None
    } else {
        Some(text(name, k, maxclass))
    }
}
/// Absent, or non-empty text of at most `n` characters, NUL included.
pub fn opt_text_nul(name: &str, n: usize, maxclass: usize) -> Option<Vec<u32>> {
    let k = vp::choose("chars", n + 1);
    if k == 0 {
        None
    } else {
        Some(text_nul_in(name, k, maxclass))
    }
}
pub fn any_neg(nd: usize, nw: usize, maxclass: usize) -> Neg {
    let domain = opt_text_nul("domain", nd, maxclass);
    let workstation = opt_text_nul("workstation", nw, maxclass);
    let version = if vp::flag("hasversion") { Some(any_version()) } else { None };
    let mut flags = vp::u32_("flags") & !bit::VERSION;
    if version.is_some() {
        flags |= bit::VERSION;
    }
    let mut msg = Negotiate::default();
    msg.set_domain_name(domain.as_ref().map(|s| string(s)));
    msg.set_workstation(workstation.as_ref().map(|s| string(s)));
    msg.negotiate_flags = Flags(flags);
    msg.version = version.as_ref().map(|v| v.0.clone());
    Neg { msg, flags, domain, workstation, version: version.map(|v| v.1) }
}

pub struct Chal {
    pub msg: Challenge,
    pub flags: u32,
    pub name: Option<Vec<u32>>,
    pub sc: [u8; 8],
    pub infos: Vec<P>,
    pub version: Option<[u8; 8]>,
}
/// A challenge carrying exactly these pairs (an end-of-list pair is added by the builder).
pub fn chal(flags: u32, name: Option<Vec<u32>>, sc: [u8; 8], mut infos: Vec<P>, version: Option<(Version, [u8; 8])>) -> Chal {
    let mut msg = Challenge::default();
    msg.set_target_name(name.as_ref().map(|s| string(s)));
    for p in &infos {
        p.add(&mut msg);
    }
    if !infos.is_empty() {
        infos.push(P::Eol);
    }
    msg.negotiate_flags = Flags(flags);
    msg.server_challenge = sc.into();
    msg.version = version.as_ref().map(|v| v.0.clone());
    Chal { msg, flags, name, sc, infos, version: version.map(|v| v.1) }
}
pub fn any_chal(name_chars: usize, npairs: usize, pair_chars: usize, maxclass: usize) -> Chal {
    let name = opt_text("target", name_chars, maxclass);
    let np = vp::choose("pairs", npairs + 1);
    let mut infos = vec![];
    for _ in 0..np {
        let id = 1 + vp::choose("kind", 10) as u16;
        let k = if TEXT_IDS.contains(&id) { vp::choose("chars", pair_chars + 1) } else { 0 };
        infos.push(pair(id, k, maxclass));
    }
    let version = if vp::flag("hasversion") { Some(any_version()) } else { None };
    let mut flags = vp::u32_("flags") & !bit::VERSION;
    if version.is_some() {
        flags |= bit::VERSION;
    }
    chal(flags, name, vp::bytes("sc"), infos, version)
}

#[derive(Clone)]
pub enum Nt {
    V1([u8; 24]),
    /// proof (absent in the bare form), time, client challenge, pairs
    V2(Option<[u8; 16]>, (u32, u32), [u8; 8], Vec<P>),
}
pub struct Auth {
    pub msg: Authenticate,
    pub flags: u32,
    pub lm: Option<[u8; 24]>,
    pub nt: Option<Nt>,
    pub texts: [Option<Vec<u32>>; 3],
    pub key: Option<[u8; 16]>,
    pub version: Option<[u8; 8]>,
    pub mic: [u8; 16],
}
pub fn response24(b: [u8; 24]) -> Response24 {
    b.into()
}
pub fn lm_value(v1: bool, b: &[u8; 24]) -> LmChallenge {
    if v1 {
        Lmv1Challenge { response: response24(*b) }.into()
    } else {
        let mut r = [0u8; 16];
        let mut c = [0u8; 8];
        r.copy_from_slice(&b[..16]);
        c.copy_from_slice(&b[16..]);
        Lmv2Challenge { response: r.into(), challenge_from_client: c.into() }.into()
    }
}
impl Nt {
    pub fn value(&self) -> NtChallenge {
        match self {
            Nt::V1(b) => Ntv1Challenge { response: response24(*b) }.into(),
            Nt::V2(p, t, cc, l) => {
                let c = Ntv2Challenge {
                    timestamp: FileTime { low: t.0, high: t.1 },
                    challenge_from_client: (*cc).into(),
                    target_infos: l.iter().map(|p| p.av()).collect(),
                };
                match p {
                    Some(p) => Ntv2Response { nt_proof_str: (*p).into(), challenge: c }.into(),
                    None => c.into(),
                }
            }
        }
    }
    pub fn wire(&self) -> Vec<u8> {
        match self {
            Nt::V1(b) => b.to_vec(),
            Nt::V2(p, t, cc, l) => {
                let mut v = vec![];
                if let Some(p) = p {
                    v.extend_from_slice(p);
                }
                v.extend_from_slice(&blob(*t, cc, l));
                if p.is_some() {
                    v.extend_from_slice(&[0; 4]);
                }
                v
            }
        }
    }
}
/// The NTLMv2 client blob up to and including the AV pairs.
pub fn blob(t: (u32, u32), cc: &[u8; 8], l: &[P]) -> Vec<u8> {
    let mut v = vec![1, 1, 0, 0, 0, 0, 0, 0];
    v.extend_from_slice(&t.0.to_le_bytes());
    v.extend_from_slice(&t.1.to_le_bytes());
    v.extend_from_slice(cc);
    v.extend_from_slice(&[0; 4]);
    v.extend_from_slice(&wire_list(l));
    v
}
/// Which fields an AUTHENTICATE message has, and how much text.
pub struct AuthShape {
    pub lm: usize,
    pub nt: usize,
    pub chars: [usize; 3],
    pub key: bool,
    pub version: bool,
}
pub fn build_auth(sh: &AuthShape, maxclass: usize, pairs: Vec<P>) -> Auth {
    let mut flags = vp::u32_("flags") & !(bit::VERSION | bit::KEY_EXCH);
    let lm: Option<[u8; 24]> = if sh.lm == 0 { None } else { Some(vp::bytes("lm")) };
    if sh.lm == 1 {
        flags |= bit::NTLM;
    } else if sh.lm == 2 {
        flags &= !bit::NTLM;
    }
    let nt = match sh.nt {
        0 => None,
        1 => Some(Nt::V1(vp::bytes("nt"))),
        2 => Some(Nt::V2(None, (vp::u32_("low"), vp::u32_("high")), vp::bytes("cc"), pairs)),
        _ => Some(Nt::V2(Some(vp::bytes("proof")), (vp::u32_("low"), vp::u32_("high")), vp::bytes("cc"), pairs)),
    };
    let mut texts = [None, None, None];
    for i in 0..3 {
        if sh.chars[i] > 0 {
            texts[i] = Some(text(["domain", "user", "workstation"][i], sh.chars[i], maxclass));
        }
    }
    let key: Option<[u8; 16]> = if sh.key { Some(vp::bytes("key")) } else { None };
    let version = if sh.version { Some(any_version()) } else { None };
    if key.is_some() {
        flags |= bit::KEY_EXCH;
    }
    if version.is_some() {
        flags |= bit::VERSION;
    }
    let mic: [u8; 16] = vp::bytes("mic");
    let mut msg = Authenticate::default();
    msg.set_encrypted_random_session_key(key.map(|k| k.into()));
    msg.lm_challenge_response = lm.as_ref().map(|b| lm_value(sh.lm == 1, b));
    msg.nt_challenge_response = nt.as_ref().map(|n| n.value());
    msg.domain = texts[0].as_ref().map(|s| string(s).into());
    msg.user = texts[1].as_ref().map(|s| string(s).into());
    msg.workstation = texts[2].as_ref().map(|s| string(s).into());
    msg.version = version.as_ref().map(|v| v.0.clone());
    msg.mic = mic.into();
    msg.negotiate_flags = Flags(flags);
    Auth { msg, flags, lm, nt, texts, key, version: version.map(|v| v.1), mic }
}
pub fn same_text(s: Option<&String>, m: &Option<Vec<u32>>) -> bool {
    match (s, m) {
        (None, None) => true,
        (Some(s), Some(m)) => {
            let e = utf8(m);
            s.len() == e.len() && vp::same(s.as_bytes(), &e)
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- raw messages

pub const NONE: Desc = Desc { len: 0, max: 0, off: 0 };

fn put_desc(v: &mut Vec<u8>, d: &Desc) {
    v.extend_from_slice(&d.len.to_le_bytes());
    v.extend_from_slice(&d.max.to_le_bytes());
    v.extend_from_slice(&d.off.to_le_bytes());
}
pub fn raw_neg(flags: u32, d: &[Desc; 2], tail: &[u8]) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend_from_slice(&1u32.to_le_bytes());
    v.extend_from_slice(&flags.to_le_bytes());
    put_desc(&mut v, &d[0]);
    put_desc(&mut v, &d[1]);
    v.extend_from_slice(tail);
    v
}
pub fn raw_chal(flags: u32, sc: &[u8; 8], reserved: &[u8; 8], d: &[Desc; 2], tail: &[u8]) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend_from_slice(&2u32.to_le_bytes());
    put_desc(&mut v, &d[0]);
    v.extend_from_slice(&flags.to_le_bytes());
    v.extend_from_slice(sc);
    v.extend_from_slice(reserved);
    put_desc(&mut v, &d[1]);
    v.extend_from_slice(tail);
    v
}
pub fn raw_auth(flags: u32, d: &[Desc; 6], tail: &[u8]) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend_from_slice(&3u32.to_le_bytes());
    for x in d {
        put_desc(&mut v, x);
    }
    v.extend_from_slice(&flags.to_le_bytes());
    v.extend_from_slice(tail);
    v
}

// ---------------------------------------------------------------- the client

pub struct L<const N: u32>;
impl<const N: u32> NtlmVersion for L<N> {
    fn version() -> u32 {
        N
    }
}
pub trait Cl {
    fn neg(&mut self) -> Vec<u8>;
    fn chal(&mut self, c: Challenge);
    fn auth(&mut self) -> Vec<u8>;
}
impl<const N: u32> Cl for Client<L<N>> {
    fn neg(&mut self) -> Vec<u8> {
        self.send_negociate().to_vec()
    }
    fn chal(&mut self, c: Challenge) {
        self.recv_challenge(c)
    }
    fn auth(&mut self) -> Vec<u8> {
        self.send_authenticate().to_vec()
    }
}
pub fn client(level: usize, user: &str, password: &str) -> Box<dyn Cl> {
    let (u, p, t) = (user.to_owned(), password.to_owned(), "t".to_owned());
    match level {
        0 => Box::new(Client::<L<0>>::new(u, p, t)),
        1 => Box::new(Client::<L<1>>::new(u, p, t)),
        2 => Box::new(Client::<L<2>>::new(u, p, t)),
        3 => Box::new(Client::<L<3>>::new(u, p, t)),
        4 => Box::new(Client::<L<4>>::new(u, p, t)),
        _ => Box::new(Client::<L<5>>::new(u, p, t)),
    }
}
pub fn client_in(level: usize, user: &str, domain: &str, password: &str) -> Box<dyn Cl> {
    let (u, d, p, t) = (user.to_owned(), domain.to_owned(), password.to_owned(), "t".to_owned());
    match level {
        0 => Box::new(Client::<L<0>>::new_with_domain(u, d, p, t)),
        1 => Box::new(Client::<L<1>>::new_with_domain(u, d, p, t)),
        2 => Box::new(Client::<L<2>>::new_with_domain(u, d, p, t)),
        3 => Box::new(Client::<L<3>>::new_with_domain(u, d, p, t)),
        4 => Box::new(Client::<L<4>>::new_with_domain(u, d, p, t)),
        _ => Box::new(Client::<L<5>>::new_with_domain(u, d, p, t)),
    }
}

/// An AUTHENTICATE message as an independent reader sees it.
pub struct A {
    pub bytes: Vec<u8>,
    pub f: [Vec<u8>; 6],
    pub flags: u32,
    pub has_version: bool,
    pub mic_at: usize,
}
pub const LM: usize = 0;
pub const NT: usize = 1;
pub const DOM: usize = 2;
pub const USER: usize = 3;
pub const WS: usize = 4;
pub const KEY: usize = 5;

pub fn read_auth(b: Vec<u8>) -> A {
    vp::check(b.len() >= 64 + 16, "AUTHENTICATE message too short");
    vp::check(vp::same(&b[..8], &SIG), "AUTHENTICATE signature");
    vp::check(le32(&b, 8) == 3, "AUTHENTICATE message type");
    let flags = le32(&b, AUTH_FLAGS);
    let has_version = flags & bit::VERSION != 0;
    let start = if has_version { 88 } else { 80 };
    let mut f: [Vec<u8>; 6] = Default::default();
    for i in 0..6 {
        let d = desc(&b, AUTH_DESC[i]);
        vp::check(d.len == d.max, "AUTHENTICATE descriptor: length and maximum length differ");
        match d.get(&b) {
            Some(x) => {
                vp::check(d.len == 0 || d.off as usize >= start, "AUTHENTICATE payload inside the fixed part");
                f[i] = x.to_vec()
            }
            None => vp::check(false, "AUTHENTICATE descriptor beyond the message"),
        }
    }
    A { mic_at: if has_version { 72 } else { 64 }, bytes: b, f, flags, has_version }
}
impl A {
    pub fn mic(&self) -> &[u8] {
        &self.bytes[self.mic_at..self.mic_at + 16]
    }
}

/// No computer name to be had.
pub fn no_host() {
    vp::env("COMPUTERNAME", None);
    vp::host_error(2);
}

// ---------------------------------------------------------------- sizes

/// Sizes to try: all the small ones, and both sides of the boundaries code tends to have.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).collect();
    for n in [48, 56, 60, 63, 64, 65, 72, 80, 96, 100, 127, 128, 129, 160, 192, 200, 254, 255, 256, 257, 300, 400, 500,
              511, 512, 513, 700, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8191, 8192, 8193,
              10000, 16383, 16384, 16385, 30000, 32763, 32766, 32767, 32768, 32769, 40000, 49152, 65519, 65520, 65534,
              65535]
    {
        if n <= max {
            v.push(n)
        }
    }
    v
}
/// A size out of `sizes(max)`, explored by `shards` jobs.
pub fn size(name: &str, max: usize, shards: usize) -> usize {
    let l = sizes(max);
    let s = if shards > 1 { vp::shard(shards) } else { 0 };
    let mine: Vec<usize> = l.iter().copied().enumerate().filter(|(i, _)| i % shards == s).map(|(_, n)| n).collect();
    mine[vp::choose(name, mine.len())]
}
/// Text of `n` characters: unconstrained first and last characters of these UTF-8 lengths (when `n` is 1
/// the last is the only one), everything between fixed, of UTF-8 length `mid` (5: all in turn), and
/// different from its neighbours.
pub fn varied_in(name: &str, n: usize, first: usize, mid: usize, last: usize) -> Vec<u32> {
    let s = varied_nul(name, n, first, mid, last);
    if n > 0 {
        vp::assume((s[0] != 0) & (s[n - 1] != 0));
    }
    s
}
/// The same, NUL included.
pub fn varied_nul(name: &str, n: usize, first: usize, mid: usize, last: usize) -> Vec<u32> {
    if n == 0 {
        return vec![];
    }
    let mut s: Vec<u32> = (0..n)
        .map(|i| {
            let k = (i * 29 + i / 75) % 75;
            let c = match if mid == 5 { 1 + (i * 3 + i / 4) % 4 } else { mid } {
                1 => 0x30 + k,
                2 => 0x100 + 7 * k,
                3 => 0x4e00 + 31 * k,
                _ => 0x1f300 + k,
            };
            c as u32
        })
        .collect();
    if n > 1 {
        s[0] = scalar(name, first);
    }
    s[n - 1] = scalar(name, last);
    s
}
pub fn varied(name: &str, n: usize, first: usize, last: usize) -> Vec<u32> {
    varied_in(name, n, first, 1, last)
}
/// Text whose UTF-8 form has `n` bytes: ASCII with an unconstrained first and last character.
pub fn varied_ascii(name: &str, n: usize) -> Vec<u32> {
    varied(name, n, 1, 1)
}
/// A list of `n` pairs going through all kinds; text of `chars` characters, unconstrained values at both ends.
pub fn many_pairs(n: usize, chars: usize) -> Vec<P> {
    let mut l = vec![];
    for i in 0..n {
        let id = 1 + (i * 3 % 10) as u16;
        let b = i as u8;
        l.push(match id {
            _ if i == 0 || i + 1 == n => pair(id, 1, 1),
            6 => P::Bits(i as u32 & 7),
            7 => P::Time(i as u32, 7 * i as u32),
            8 => {
                let mut h = [b; 48];
                h[4..8].copy_from_slice(&[0; 4]);
                P::Host(h)
            }
            10 => P::Bind([b; 16]),
            _ => {
                let n = if chars == 0 { i % 4 } else { chars };
                P::Text(id, (0..n).map(|j| 0x41 + ((i + j) % 26) as u32).collect())
            }
        });
    }
    l
}
