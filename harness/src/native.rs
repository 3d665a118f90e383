//! Replays recorded inputs against the real crate, compiled natively with the real cryptography
//! crates. Reads cases from the file named by the first argument, prints one block per case.
#[path = "../../engine/src/crypto.rs"]
#[allow(dead_code)]
mod crypto;
mod expr {
    #[derive(Clone, Copy)]
    pub enum UfName {
        Md5,
        Md4,
        Des,
        Rc4,
    }
}
mod all;
mod kit;
mod spec;
mod vp;

use std::cell::RefCell;
use std::io::Write;

struct Stop;

#[derive(Default)]
struct Run {
    inputs: Vec<(String, Vec<u8>)>,
    pos: usize,
    obs: Vec<(String, Vec<u8>)>,
    viol: Option<(String, String)>,
    status: Option<String>,
    host: Option<(u32, Vec<u8>)>,
    clock: Option<(u64, u32)>,
    active: bool,
    may_panic: bool,
    panic_msg: Option<String>,
}
thread_local!(static RUN: RefCell<Run> = RefCell::new(Run::default()));

fn text(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
}
fn halt(status: &str) -> ! {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        if r.status.is_none() {
            r.status = Some(status.to_owned())
        }
    });
    std::panic::resume_unwind(Box::new(Stop))
}
fn next(name: &str, len: usize) -> Vec<u8> {
    let got = RUN.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.pos;
        r.pos += 1;
        r.inputs.get(i).cloned()
    });
    match got {
        Some((n, v)) if n == name && v.len() == len => v,
        Some((n, v)) => halt(&format!("desync: wanted {}[{}], recorded {}[{}]", name, len, n, v.len())),
        None => halt(&format!("desync: wanted {}[{}], nothing recorded", name, len)),
    }
}

#[no_mangle]
pub extern "C-unwind" fn vp_sym(p: *mut u8, len: usize, name: *const u8, nlen: usize) {
    let v = next(&text(name, nlen), len);
    unsafe { std::slice::from_raw_parts_mut(p, len).copy_from_slice(&v) }
}
#[no_mangle]
pub extern "C-unwind" fn vp_assume(c: bool) {
    if !c {
        halt("assume")
    }
}
#[no_mangle]
pub extern "C-unwind" fn vp_assert(c: bool, msg: *const u8, len: usize) {
    if !c {
        let m = text(msg, len);
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            if r.viol.is_none() {
                r.viol = Some(("assert".into(), m))
            }
        });
        halt("violation")
    }
}
#[no_mangle]
pub extern "C-unwind" fn vp_reach(_m: *const u8, _l: usize) {}
#[no_mangle]
pub extern "C-unwind" fn vp_expect(_m: *const u8, _l: usize) {}
#[no_mangle]
pub extern "C-unwind" fn vp_observe(l: *const u8, ll: usize, p: *const u8, n: usize) {
    let v = unsafe { std::slice::from_raw_parts(p, n).to_vec() };
    RUN.with(|r| r.borrow_mut().obs.push((text(l, ll), v)));
}
#[no_mangle]
pub extern "C-unwind" fn vp_choose(_n: u32, name: *const u8, nlen: usize) -> u32 {
    let v = next(&text(name, nlen), 4);
    u32::from_le_bytes([v[0], v[1], v[2], v[3]])
}
#[no_mangle]
pub extern "C-unwind" fn vp_shard(_n: u32) -> u32 {
    let v = next("shard", 4);
    u32::from_le_bytes([v[0], v[1], v[2], v[3]])
}
#[no_mangle]
pub extern "C-unwind" fn vp_conc(v: u64) -> u64 {
    v
}
unsafe fn uf(f: expr::UfName, args: &[&[u8]], out: *mut u8, n: usize) {
    let r = crypto::uf(f, &args.concat()).to_le_bytes();
    std::slice::from_raw_parts_mut(out, n).copy_from_slice(&r[..n]);
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    std::slice::from_raw_parts(p, n)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vp_md5(state: *mut u32, block: *const u8) {
    let st = sl(state.cast(), 16).to_vec();
    uf(expr::UfName::Md5, &[&st, sl(block, 64)], state.cast(), 16)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vp_md4(state: *mut u32, block: *const u8) {
    let st = sl(state.cast(), 16).to_vec();
    uf(expr::UfName::Md4, &[&st, sl(block, 64)], state.cast(), 16)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vp_des(key: *const u8, i: *const u8, o: *mut u8) {
    uf(expr::UfName::Des, &[sl(key, 8), sl(i, 8)], o, 8)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vp_rc4(key: *const u8, len: usize, chunk: u32, out: *mut u8) {
    uf(expr::UfName::Rc4, &[sl(key, len), &[chunk as u8]], out, 16)
}
#[no_mangle]
pub extern "C-unwind" fn vp_env(name: *const u8, nlen: usize, val: *const u8, vlen: usize, present: bool) {
    use std::os::unix::ffi::OsStringExt;
    let n = text(name, nlen);
    unsafe {
        if present {
            let v = std::ffi::OsString::from_vec(std::slice::from_raw_parts(val, vlen).to_vec());
            std::env::set_var(n, v)
        } else {
            std::env::remove_var(n)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn vp_host(mode: u32, p: *const u8, len: usize) {
    let v = unsafe { std::slice::from_raw_parts(p, len).to_vec() };
    RUN.with(|r| r.borrow_mut().host = Some((mode, v)));
}
#[no_mangle]
pub extern "C-unwind" fn vp_clock(sec: u64, nsec: u32) {
    RUN.with(|r| r.borrow_mut().clock = Some((sec, nsec)));
}

// ---------------------------------------------------------------- the host the crate sees

/// Stands in for the C library: only /etc/hostname is ever replaced, and only while a case runs.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::c_int) -> libc::c_int {
    let is_host = std::ffi::CStr::from_ptr(path).to_bytes() == b"/etc/hostname";
    let host = if is_host {
        RUN.try_with(|r| r.try_borrow().ok().filter(|r| r.active).map(|r| r.host.clone().unwrap_or((2, vec![]))))
            .ok()
            .flatten()
    } else {
        None
    };
    match host {
        None => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int,
        Some((0, v)) => {
            let fd = libc::memfd_create(b"hostname\0".as_ptr().cast(), 0);
            let mut o = 0;
            while o < v.len() {
                let n = libc::write(fd, v[o..].as_ptr().cast(), v.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::lseek(fd, 0, libc::SEEK_SET);
            fd
        }
        Some((1, _)) => {
            libc::syscall(libc::SYS_openat, libc::AT_FDCWD, b"/\0".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0)
                as libc::c_int
        }
        Some((e, _)) => {
            *libc::__errno_location() = e as i32;
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        let c = RUN.try_with(|r| r.try_borrow().ok().filter(|r| r.active).and_then(|r| r.clock)).ok().flatten();
        if let Some((s, n)) = c {
            (*ts).tv_sec = s as i64;
            (*ts).tv_nsec = n as i64;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

#[no_mangle]
pub extern "C-unwind" fn vp_may_panic(c: bool) {
    RUN.with(|r| r.borrow_mut().may_panic = c);
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn run_case(name: &str, inputs: Vec<(String, Vec<u8>)>, out: &mut impl Write) {
    for v in ["COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN"] {
        unsafe { std::env::remove_var(v) };
    }
    vp::reset();
    RUN.with(|r| *r.borrow_mut() = Run { inputs, active: true, ..Run::default() });
    let f = all::table().into_iter().find(|(n, _)| *n == name).map(|x| x.1);
    let r = match f {
        Some(f) => std::panic::catch_unwind(f),
        None => {
            writeln!(out, "S no such harness").unwrap();
            return;
        }
    };
    let run = RUN.with(|r| {
        let mut r = r.borrow_mut();
        r.active = false;
        std::mem::take(&mut *r)
    });
    let mut status = run.status;
    let mut viol = run.viol;
    if let Err(e) = r {
        if !e.is::<Stop>() && !run.may_panic {
            viol = Some(("panic".into(), run.panic_msg.unwrap_or_default()));
            status = Some("violation".into());
        }
    }
    for (l, v) in &run.obs {
        writeln!(out, "O {} {}", l.replace(' ', "_"), hex(v)).unwrap();
    }
    if let Some((k, m)) = viol {
        writeln!(out, "V {} {}", k, m.replace('\n', " ")).unwrap();
    }
    let left = run.inputs.len() as i64 - run.pos as i64;
    writeln!(out, "S {} {}", status.unwrap_or("ok".into()), left).unwrap();
}

fn main() {
    let path = std::env::args().nth(1).expect("case file");
    let src = std::fs::read_to_string(path).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        let _ = RUN.try_with(|r| {
            if let Ok(mut r) = r.try_borrow_mut() {
                if r.panic_msg.is_none() {
                    r.panic_msg = Some(m)
                }
            }
        });
    }));
    let stdout = std::io::stdout();
    let mut name = String::new();
    let mut inputs = vec![];
    for l in src.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "CASE" => {
                name = w[1].to_owned();
                inputs = vec![];
            }
            "I" => inputs.push((w[1].to_owned(), unhex(w.get(2).unwrap_or(&"")))),
            "END" => {
                let mut o = vec![];
                writeln!(o, "CASE {}", name).unwrap();
                stdout.lock().write_all(&o).unwrap();
                stdout.lock().flush().unwrap();
                let mut o = vec![];
                run_case(&name, std::mem::take(&mut inputs), &mut o);
                stdout.lock().write_all(&o).unwrap();
            }
            _ => {}
        }
    }
}
