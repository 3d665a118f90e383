//! What a harness can ask of its runner. The symbolic runner (engine/src/exec.rs) gives these
//! functions their symbolic meaning; the native runner (native.rs) replays recorded values.
#![allow(dead_code)]

extern "C-unwind" {
    fn vp_sym(p: *mut u8, len: usize, name: *const u8, nlen: usize);
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, msg: *const u8, len: usize);
    fn vp_reach(msg: *const u8, len: usize);
    fn vp_expect(msg: *const u8, len: usize);
    fn vp_observe(label: *const u8, llen: usize, p: *const u8, n: usize);
    fn vp_choose(n: u32, name: *const u8, nlen: usize) -> u32;
    fn vp_shard(n: u32) -> u32;
    fn vp_conc(v: u64) -> u64;
    fn vp_md5(state: *mut u32, block: *const u8);
    fn vp_md4(state: *mut u32, block: *const u8);
    fn vp_des(key: *const u8, input: *const u8, output: *mut u8);
    fn vp_rc4(key: *const u8, len: usize, chunk: u32, out: *mut u8);
    fn vp_env(name: *const u8, nlen: usize, val: *const u8, vlen: usize, present: bool);
    fn vp_host(mode: u32, p: *const u8, len: usize);
}

/// Fills a buffer with unconstrained values.
pub fn fill(buf: &mut [u8], name: &str) {
    unsafe { vp_sym(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b, name);
    b
}
pub fn vec(name: &str, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b, name);
    b
}
pub fn u8_(name: &str) -> u8 {
    bytes::<1>(name)[0]
}
pub fn u16_(name: &str) -> u16 {
    u16::from_le_bytes(bytes(name))
}
pub fn u32_(name: &str) -> u32 {
    u32::from_le_bytes(bytes(name))
}
pub fn u64_(name: &str) -> u64 {
    u64::from_le_bytes(bytes(name))
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
/// The property: must hold for every value.
pub fn check(c: bool, msg: &str) {
    unsafe { vp_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn check_eq(a: &[u8], b: &[u8], msg: &str) {
    check(a.len() == b.len(), msg);
    check(same(a, b), msg)
}
/// Equality of equally long buffers, without branching on their contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() && i < b.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
/// This point was reached by some path.
pub fn reach(msg: &str) {
    unsafe { vp_reach(msg.as_ptr(), msg.len()) }
}
/// Some path must reach this label, else the run is vacuous.
pub fn expect(msg: &str) {
    unsafe { vp_expect(msg.as_ptr(), msg.len()) }
}
pub fn observe(label: &str, b: &[u8]) {
    unsafe { vp_observe(label.as_ptr(), label.len(), b.as_ptr(), b.len()) }
}
/// Every value in 0..n, each on paths of its own.
pub fn choose(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { vp_choose(n as u32, name.as_ptr(), name.len()) as usize }
}
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
/// Like choose, but the values are explored by separate jobs.
pub fn shard(n: usize) -> usize {
    unsafe { vp_shard(n as u32) as usize }
}
/// Every value the expression can take, each on paths of its own.
pub fn conc(v: u64) -> u64 {
    unsafe { vp_conc(v) }
}
pub fn env(name: &str, val: Option<&[u8]>) {
    match val {
        Some(v) => unsafe { vp_env(name.as_ptr(), name.len(), v.as_ptr(), v.len(), true) },
        None => unsafe { vp_env(name.as_ptr(), name.len(), name.as_ptr(), 0, false) },
    }
}
/// The contents of /etc/hostname.
pub fn host(content: &[u8]) {
    unsafe { vp_host(0, content.as_ptr(), content.len()) }
}
/// /etc/hostname cannot be read (1) or opened (errno).
pub fn host_error(mode: u32) {
    unsafe { vp_host(mode, [].as_ptr(), 0) }
}

pub fn md5_compress(state: &mut [u32; 4], block: &[u8; 64]) {
    unsafe { vp_md5(state.as_mut_ptr(), block.as_ptr()) }
}
pub fn md4_compress(state: &mut [u32; 4], block: &[u8; 64]) {
    unsafe { vp_md4(state.as_mut_ptr(), block.as_ptr()) }
}
pub fn des_block(key: &[u8; 8], input: &[u8; 8]) -> [u8; 8] {
    let mut o = [0u8; 8];
    unsafe { vp_des(key.as_ptr(), input.as_ptr(), o.as_mut_ptr()) };
    o
}
pub fn rc4_chunk(key: &[u8], chunk: u32) -> [u8; 16] {
    let mut o = [0u8; 16];
    unsafe { vp_rc4(key.as_ptr(), key.len(), chunk, o.as_mut_ptr()) };
    o
}

// ---------------------------------------------------------------- the random source

static mut DRAWS: Vec<Vec<u8>> = Vec::new();
static mut SCRIPT: Vec<Vec<u8>> = Vec::new();
static mut ROUTINE: Option<u32> = None;

/// The operating system's random source: every draw is a fresh unconstrained value.
#[no_mangle]
pub extern "C-unwind" fn vp_getrandom(p: *mut u8, len: usize) {
    unsafe {
        let b = std::slice::from_raw_parts_mut(p, len);
        #[allow(static_mut_refs)]
        if let Some(n) = ROUTINE.as_mut() {
            for x in b.iter_mut() {
                *n = n.wrapping_mul(1664525).wrapping_add(1013904223);
                *x = (*n >> 24) as u8;
            }
        } else if !SCRIPT.is_empty() && SCRIPT[0].len() == len {
            b.copy_from_slice(&SCRIPT.remove(0));
        } else {
            fill(b, "rand");
        }
        #[allow(static_mut_refs)]
        DRAWS.push(b.to_vec());
    }
}
#[allow(static_mut_refs)]
pub fn draws() -> &'static [Vec<u8>] {
    unsafe { &DRAWS }
}
#[allow(static_mut_refs)]
pub fn reset() {
    unsafe {
        DRAWS.clear();
        SCRIPT.clear();
        ROUTINE = None;
    }
}
/// While on, the random source makes fixed values, all different.
#[allow(static_mut_refs)]
pub fn routine(on: bool) {
    unsafe { ROUTINE = if on { Some(1 + DRAWS.len() as u32) } else { None } }
}

/// The random source repeats these draws before it makes fresh ones.
#[allow(static_mut_refs)]
pub fn script(d: Vec<Vec<u8>>) {
    unsafe { SCRIPT = d }
}

extern "C-unwind" {
    fn vp_may_panic(c: bool);
}
/// Whether a panic from here on is a legitimate end of the path.
pub fn may_panic(c: bool) {
    unsafe { vp_may_panic(c) }
}

extern "C-unwind" {
    fn vp_clock(sec: u64, nsec: u32);
}
/// What the wall clock says from now on.
pub fn clock(sec: u64, nsec: u32) {
    unsafe { vp_clock(sec, nsec) }
}
/// An unconstrained wall clock between 1970 and about 10680 AD.
pub fn any_clock() -> (u64, u32) {
    let b: [u8; 5] = bytes("clock");
    let mut s = 0u64;
    for i in 0..5 {
        s |= (b[i] as u64) << (8 * i);
    }
    assume(s < 1 << 38);
    let n = u32_("clock_ns");
    assume(n < 1_000_000_000);
    clock(s, n);
    (s, n)
}
