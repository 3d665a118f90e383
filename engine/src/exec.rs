//! The symbolic interpreter: path exploration over LLVM IR.

use crate::expr::*;
use crate::ll::*;
use crate::z3::{Res, Z3};
use crate::expr::{HashMap, HashSet};
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    U,
    A(Rc<Vec<V>>),
}

pub const UNINIT: u32 = 256;
pub const SYM: u32 = 512;

#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u64,
    pub cells: Vec<u32>,
    pub ro: bool,
    pub heap: bool,
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    next: u32,
    free: VecDeque<u32>,
}

impl Mem {
    fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_ref()
    }
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let c = Rc::make_mut(c);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= id as usize / CH {
            self.chunks.push(Rc::new(std::array::from_fn(|_| None)));
        }
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = o;
    }
    pub fn alloc(&mut self, size: u64, fill: u32, heap: bool) -> u64 {
        let id = if self.free.len() > 1024 {
            self.free.pop_front().unwrap()
        } else {
            let i = self.next;
            self.next += 1;
            i
        };
        self.set(id, Some(Rc::new(Obj { size, cells: vec![fill; size as usize], ro: false, heap })));
        obj_addr(id)
    }
    fn free_id(&mut self, id: u32) {
        self.set(id, None);
        self.free.push_back(id);
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u64>>,
    pub model_ok: bool,
    pub inputs: Vec<(String, Vec<E>)>,
    pub obs: Vec<(String, Vec<E>)>,
    pub env: Vec<(Vec<u8>, Option<u64>)>,
    pub host: (u32, Vec<u32>),
    pub clock: Option<(E, E)>,
    pub may_panic: bool,
    pub fdpos: u64,
    /// values of the thread's keys (pthread_key_create); their destructors would run after the path ends
    pub keys: Vec<V>,
    pub errno_addr: u64,
    pub insts: u64,
    pub asserts: u32,
    pub undefs: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub model_ok: bool,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub inputs: Vec<(String, Vec<u8>)>,
    pub obs: Vec<(String, Vec<u8>)>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    /// questions the solver left open: the path went on with the values of one model
    pub undecided: u64,
    pub forks: u64,
    pub insts: u64,
    pub queries: u64,
    pub query_cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub asserts: u64,
    pub asserts_simplified: u64,
    pub assert_queries: u64,
    pub solver_s: f64,
    pub wall_s: f64,
    pub max_depth: usize,
}

pub enum Stop {
    /// path ended (done, killed, violating)
    End,
    /// engine cannot continue: the whole job is inconclusive
    Fatal(String),
}
type X<T> = Result<T, Stop>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bi {
    None,
    Sym,
    Assume,
    Assert,
    Reach,
    Expect,
    Observe,
    Choose,
    Shard,
    Conc,
    Md5,
    Md4,
    Des,
    Rc4,
    Env,
    Host,
    Clock,
    MayPanic,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    NoopShim,
    Panic,
    Abort,
    Print,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Memchr,
    Memrchr,
    Getenv,
    Open,
    Read,
    Readv,
    Write,
    Writev,
    Zero,
    Stat,
    Getrandom,
    Close,
    Fstat,
    Lseek,
    Errno,
    NoSyscall,
    Fp(&'static str),
    Free,
    Calloc,
    Strerror,
    KeyCreate,
    KeyGet,
    KeySet,
    Getpid,
    ClockGettime,
    Nop,
    Assume0,
    UMax,
    UMin,
    SMax,
    SMin,
    Fshl,
    Fshr,
    Bswap,
    Ctpop,
    Ctlz,
    Cttz,
    Bitrev,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UCmp,
    SCmp,
    Abs,
    Expect1,
    IsConst,
    TlsAddr,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    PtrMask,
}

pub fn classify(f: &Func) -> Bi {
    let n = f.name.as_str();
    if let Some(r) = n.strip_prefix("llvm.") {
        let h: Vec<&str> = r.split('.').collect();
        return match (h[0], *h.get(1).unwrap_or(&"")) {
            ("memcpy", _) | ("memmove", _) => Bi::Memcpy,
            ("memset", _) => Bi::Memset,
            ("lifetime", _) | ("experimental", _) | ("dbg", _) | ("sideeffect", _) | ("prefetch", _) | ("donothing", _) => Bi::Nop,
            ("invariant", _) => Bi::Nop,
            ("assume", _) => Bi::Assume0,
            ("umax", _) => Bi::UMax,
            ("umin", _) => Bi::UMin,
            ("smax", _) => Bi::SMax,
            ("smin", _) => Bi::SMin,
            ("fshl", _) => Bi::Fshl,
            ("fshr", _) => Bi::Fshr,
            ("bswap", _) => Bi::Bswap,
            ("ctpop", _) => Bi::Ctpop,
            ("ctlz", _) => Bi::Ctlz,
            ("cttz", _) => Bi::Cttz,
            ("bitreverse", _) => Bi::Bitrev,
            ("uadd", "with") => Bi::UAddO,
            ("usub", "with") => Bi::USubO,
            ("umul", "with") => Bi::UMulO,
            ("sadd", "with") => Bi::SAddO,
            ("ssub", "with") => Bi::SSubO,
            ("smul", "with") => Bi::SMulO,
            ("uadd", "sat") => Bi::UAddSat,
            ("usub", "sat") => Bi::USubSat,
            ("sadd", "sat") => Bi::SAddSat,
            ("ssub", "sat") => Bi::SSubSat,
            ("ucmp", _) => Bi::UCmp,
            ("scmp", _) => Bi::SCmp,
            ("fptoui", "sat") => Bi::Fp("fptoui"),
            ("fptosi", "sat") => Bi::Fp("fptosi"),
            ("fabs", _) => Bi::Fp("fabs"),
            ("floor", _) => Bi::Fp("floor"),
            ("ceil", _) => Bi::Fp("ceil"),
            ("trunc", _) => Bi::Fp("trunc"),
            ("round", _) => Bi::Fp("round"),
            ("sqrt", _) => Bi::Fp("sqrt"),
            ("abs", _) => Bi::Abs,
            ("expect", _) => Bi::Expect1,
            ("is", "constant") => Bi::IsConst,
            ("threadlocal", _) => Bi::TlsAddr,
            ("trap", _) | ("debugtrap", _) | ("ubsantrap", _) => Bi::Abort,
            ("x86", _) if r.contains("pause") => Bi::Nop,
            ("vector", "reduce") => match *h.get(2).unwrap_or(&"") {
                "add" => Bi::ReduceAdd,
                "or" => Bi::ReduceOr,
                "and" => Bi::ReduceAnd,
                _ => Bi::None,
            },
            ("ptrmask", _) => Bi::PtrMask,
            _ => Bi::None,
        };
    }
    match n {
        "vp_sym" => return Bi::Sym,
        "vp_assume" => return Bi::Assume,
        "vp_assert" => return Bi::Assert,
        "vp_reach" => return Bi::Reach,
        "vp_expect" => return Bi::Expect,
        "vp_observe" => return Bi::Observe,
        "vp_choose" => return Bi::Choose,
        "vp_shard" => return Bi::Shard,
        "vp_conc" => return Bi::Conc,
        "vp_md5" => return Bi::Md5,
        "vp_md4" => return Bi::Md4,
        "vp_des" => return Bi::Des,
        "vp_rc4" => return Bi::Rc4,
        "vp_env" => return Bi::Env,
        "vp_host" => return Bi::Host,
        "vp_clock" => return Bi::Clock,
        "vp_may_panic" => return Bi::MayPanic,
        "memcpy" | "memmove" => return Bi::Memcpy,
        "memset" => return Bi::Memset,
        "bcmp" => return Bi::Bcmp,
        "memcmp" => return Bi::Memcmp,
        "strlen" => return Bi::Strlen,
        "memchr" => return Bi::Memchr,
        "memrchr" => return Bi::Memrchr,
        "getenv" => return Bi::Getenv,
        "open64" | "open" | "openat64" | "openat" => return Bi::Open,
        "read" | "pread64" => return Bi::Read,
        "readv" => return Bi::Readv,
        "write" => return Bi::Write,
        "writev" => return Bi::Writev,
        "fcntl" => return Bi::Zero,
        "stat64" | "stat" | "lstat64" | "lstat" => return Bi::Stat,
        "getrandom" => return Bi::Getrandom,
        "close" => return Bi::Close,
        "syscall" | "statx" => return Bi::NoSyscall,
        "fstat64" | "fstat" => return Bi::Fstat,
        "lseek64" | "lseek" => return Bi::Lseek,
        "__errno_location" => return Bi::Errno,
        "clock_gettime" => return Bi::ClockGettime,
        "malloc" => return Bi::Alloc,
        "free" => return Bi::Free,
        "calloc" => return Bi::Calloc,
        "nanosleep" | "clock_nanosleep" => return Bi::Zero,
        "__xpg_strerror_r" | "strerror_r" => return Bi::Strerror,
        "pthread_key_create" => return Bi::KeyCreate,
        "pthread_getspecific" => return Bi::KeyGet,
        "pthread_setspecific" => return Bi::KeySet,
        "pthread_key_delete" | "sched_yield" => return Bi::Zero,
        "getpid" | "gettid" | "pthread_self" => return Bi::Getpid,
        "abort" | "_exit" | "exit" => return Bi::Abort,
        "pthread_mutex_lock" | "pthread_mutex_unlock" => return Bi::Nop,
        _ => {}
    }
    if n.ends_with("12___rust_alloc") {
        return Bi::Alloc;
    }
    if n.ends_with("19___rust_alloc_zeroed") {
        return Bi::AllocZ;
    }
    if n.ends_with("14___rust_dealloc") {
        return Bi::Dealloc;
    }
    if n.ends_with("14___rust_realloc") {
        return Bi::Realloc;
    }
    // the destructors of thread-local values would run after the path has ended
    if n.contains("12thread_local11destructors10linux_like8register") {
        return Bi::NoopShim;
    }
    if n.contains("___rust_no_alloc_shim") {
        return Bi::NoopShim;
    }
    if n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") {
        return Bi::Panic;
    }
    if n.contains("3std7process5abort") {
        return Bi::Abort;
    }
    if n.contains("2io5stdio") && (n.contains("7__eprint") || n.contains("6__print")) {
        return Bi::Print;
    }
    Bi::None
}

pub struct Exec {
    pub m: &'static Module,
    pub bi: &'static Vec<Bi>,
    pub ar: Arena,
    pub z3: Z3,
    pub stack: Vec<State>,
    pub st: State,
    pub stats: Stats,
    pub viol: Vec<Violation>,
    viol_keys: HashSet<String>,
    pub cases: Vec<Case>,
    pub max_cases: usize,
    pub reached: HashSet<String>,
    pub expected: HashSet<String>,
    pub funcs_used: Vec<bool>,
    pub shard: u32,
    pub nshards: Option<u32>,
    vars: HashMap<(String, u32, u32), E>,
    qcache: HashMap<Vec<E>, Option<Vec<(u32, u64)>>>,
    last_model: Rc<Vec<u64>>,
    pub deadline: Instant,
    ite_tries: u64,
    ite_hits: u64,
    pub stop: Option<std::sync::Arc<std::sync::atomic::AtomicU64>>,
    pub gave_up: bool,
    pub max_insts: u64,
    pub max_paths: u64,
    pub verbose: bool,
    pub max_viol: usize,
    pub smt_keep: usize,
    pub smt_kept: Vec<String>,
    pub case_seed: u64,
    pub on_shards: Option<Box<dyn Fn(u32)>>,
}

enum Place {
    Conc(u32, u64),
    Sym(u32, E),
}

fn args_str(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// Milliseconds since the first call.
pub fn millis() -> u64 {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64
}

impl Exec {
    pub fn new(m: &'static Module, bi: &'static Vec<Bi>, shard: u32, deadline: Instant) -> Exec {
        let mut mem = Mem { chunks: Vec::new(), next: m.next_obj, free: VecDeque::new() };
        for g in &m.globals {
            mem.set(
                g.id,
                Some(Rc::new(Obj { size: g.size, cells: (*g.init).clone(), ro: g.constant, heap: false })),
            );
        }
        let model = Rc::new(Vec::new());
        let st = State {
            frames: vec![],
            mem,
            pc: vec![],
            model: model.clone(),
            model_ok: true,
            inputs: vec![],
            obs: vec![],
            env: vec![],
            host: (2, vec![]),
            clock: None,
            may_panic: false,
            fdpos: 0,
            keys: Vec::new(),
            errno_addr: 0,
            insts: 0,
            asserts: 0,
            undefs: 0,
        };
        let nf = m.funcs.len();
        let mut ar = Arena::new();
        ar.new_eval();
        Exec {
            m,
            bi,
            ar,
            z3: Z3::new(60_000),
            stack: vec![],
            st,
            stats: Stats::default(),
            viol: vec![],
            viol_keys: HashSet::default(),
            cases: vec![],
            max_cases: 40,
            reached: HashSet::default(),
            expected: HashSet::default(),
            funcs_used: vec![false; nf],
            shard,
            nshards: None,
            vars: HashMap::default(),
            qcache: HashMap::default(),
            last_model: model,
            deadline,
            stop: None,
            ite_tries: 0,
            ite_hits: 0,
            max_insts: 40_000_000,
            gave_up: false,
            max_paths: 4_000_000,
            verbose: false,
            max_viol: 6,
            smt_keep: 0,
            smt_kept: vec![],
            case_seed: 0,
            on_shards: None,
        }
    }

    // ------------------------------------------------------------ run loop

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let t0 = Instant::now();
        let f = *self.m.func_ids.get(entry).ok_or(format!("no entry {}", entry))?;
        let m = self.m;
        let nregs = m.funcs[f as usize].nregs;
        self.st.errno_addr = self.st.mem.alloc(4, 0, false);
        self.st.frames.push(Rc::new(Frame {
            func: f,
            block: 0,
            ip: 0,
            regs: vec![V::U; nregs as usize],
            allocas: vec![],
            dst: None,
            normal: None,
        }));
        self.funcs_used[f as usize] = true;
        loop {
            let before = self.st.insts;
            let r = self.run_path();
            self.stats.insts += self.st.insts - before;
            self.stats.max_depth = self.stats.max_depth.max(self.st.pc.len());
            self.stats.wall_s = t0.elapsed().as_secs_f64();
            if let Err(Stop::Fatal(s)) = r {
                let w = self.where_();
                return Err(format!("{} at {}", s, w.join(" < ")));
            }
            if self.stats.paths > self.max_paths {
                return Err("path limit".into());
            }
            if self.viol.len() >= self.max_viol {
                // enough counterexamples; the verdict is already negative
                return Ok(());
            }
            match self.stack.pop() {
                Some(s) => self.st = s,
                None => return Ok(()),
            }
            if self.late() {
                return Err(format!("time limit after {} paths", self.stats.paths));
            }
        }
    }

    fn late(&self) -> bool {
        Instant::now() > self.deadline
            || self.stop.as_ref().is_some_and(|s| millis() > s.load(std::sync::atomic::Ordering::Relaxed))
    }

    pub fn where_(&self) -> Vec<String> {
        self.st.frames.iter().rev().take(12).map(|f| short(&self.m.funcs[f.func as usize].name)).collect()
    }

    fn in_unicode_table(&self) -> bool {
        let f = self.st.frames.last().unwrap().func;
        self.m.funcs[f as usize].name.contains("unicode_data11conversions6lookup")
    }

    fn run_path(&mut self) -> X<()> {
        let m = self.m;
        let mut since = 0u32;
        loop {
            let fr = self.st.frames.last().unwrap();
            let func = &m.funcs[fr.func as usize];
            let ins = &func.blocks[fr.block as usize].insts[fr.ip as usize];
            self.st.insts += 1;
            since += 1;
            if since & 0xffff == 0 {
                if self.late() {
                    return Err(Stop::Fatal("time limit".into()));
                }
                if self.st.insts > self.max_insts {
                    return Err(self.give_up("instruction limit on one path".into()));
                }
            }
            match self.step(ins) {
                Ok(()) => {}
                Err(e) => return Err(e),
            }
            if self.st.frames.is_empty() {
                // entry returned
                self.finish_path();
                return Ok(());
            }
        }
    }

    fn finish_path(&mut self) {
        self.stats.paths += 1;
        // reservoir sample of the explored paths, chosen by the seed
        let n = self.stats.paths;
        if !self.st.model_ok {
            return;
        }
        if self.cases.len() < self.max_cases {
            let c = self.make_case();
            self.cases.push(c);
        } else {
            let mut h = (n ^ (self.case_seed << 32) ^ self.case_seed).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 29;
            h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
            h ^= h >> 32;
            let r = (h % n) as usize;
            if r < self.max_cases {
                let c = self.make_case();
                self.cases[r] = c;
            }
        }
    }

    fn make_case(&mut self) -> Case {
        self.sync_model();
        let model = self.st.model.clone();
        let inputs = self.st.inputs.clone();
        let obs = self.st.obs.clone();
        Case {
            inputs: inputs
                .into_iter()
                .map(|(n, es)| (n, es.into_iter().map(|e| self.ar.eval(e, &model) as u8).collect()))
                .collect(),
            obs: obs
                .into_iter()
                .map(|(n, es)| (n, es.into_iter().map(|e| self.ar.eval(e, &model) as u8).collect()))
                .collect(),
        }
    }

    fn sync_model(&mut self) {
        if !Rc::ptr_eq(&self.last_model, &self.st.model) {
            self.last_model = self.st.model.clone();
            self.ar.new_eval();
        }
    }

    fn ev(&mut self, e: E) -> u128 {
        self.sync_model();
        let m = self.last_model.clone();
        self.ar.eval(e, &m)
    }

    // ------------------------------------------------------------ solving

    /// Constraints of the path condition connected to `c` through shared variables.
    fn slice(&mut self, c: E) -> Vec<E> {
        let mut set = self.ar.varset(c);
        let pc = self.st.pc.clone();
        let sets: Vec<VarSet> = pc.iter().map(|&p| self.ar.varset(p)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for i in 0..pc.len() {
                if !used[i] && sets[i].iter().zip(set.iter()).any(|(a, b)| a & b != 0) {
                    used[i] = true;
                    changed = true;
                    for k in 0..set.len() {
                        set[k] |= sets[i][k];
                    }
                }
            }
            if !changed {
                break;
            }
        }
        pc.iter().zip(used).filter(|(_, u)| *u).map(|(p, _)| *p).collect()
    }

    fn check(&mut self, q: &[E]) -> Res {
        // once a question has stayed open, do not wait as long for the next
        self.z3.limit(if self.stats.undecided == 0 { 60_000 } else { 5_000 });
        self.stats.queries += 1;
        self.z3.check(&self.ar, q, true)
    }

    /// Narrows this path to the model's values of the variables in `c`.
    fn pin(&mut self, c: E) {
        let vars = self.ar.vars_in(c);
        for v in vars {
            let x = self.ev(v);
            let w = self.ar.w(v);
            let k = self.ar.konst(w, x);
            let e = self.ar.eq(v, k);
            self.add_constraint(e);
        }
    }

    /// An expression equal to `c` on this path, in which selections whose condition the path decides have
    /// been made. The conditions are small and asked again and again (so mostly answered from the cache),
    /// what is built from them is large and new every time.
    fn decide_ites(&mut self, c: E) -> E {
        // only where it helps: not when it has mostly left the question open
        if self.ite_tries > 40 && self.ite_hits * 3 < self.ite_tries && self.stats.queries % 16 != 0 {
            return c;
        }
        let conds = self.ar.ite_conds(c, 400);
        if conds.is_empty() || !self.st.model_ok {
            return c;
        }
        let mut map: HashMap<E, E> = HashMap::default();
        let mut open = 0;
        for x in conds {
            let y = self.ar.rebuild(x, &mut map);
            if self.ar.as_const(y).is_some() {
                continue;
            }
            let b = self.ev(y) == 1;
            let other = if b { self.ar.not(y) } else { y };
            let mut q = self.slice(other);
            let known = if q.contains(&other) {
                false
            } else {
                q.push(other);
                q.sort();
                q.dedup();
                match self.qcache.get(&q) {
                    Some(r) => r.is_none(),
                    None => {
                        if open > 6 {
                            break;
                        }
                        self.z3.limit(1_000);
                        self.stats.queries += 1;
                        match self.z3.check(&self.ar, &q, true) {
                            Res::Unsat => {
                                self.stats.unsat += 1;
                                self.qcache.insert(q, None);
                                true
                            }
                            Res::Sat(v) => {
                                self.stats.sat += 1;
                                self.qcache.insert(q, Some(v));
                                open += 1;
                                false
                            }
                            Res::Unknown => {
                                open += 1;
                                false
                            }
                        }
                    }
                }
            };
            if known {
                let k = if b { self.ar.t() } else { self.ar.f() };
                map.insert(x, k);
                map.insert(y, k);
            }
        }
        let r = self.ar.rebuild(c, &mut map);
        self.ite_tries += 1;
        if self.ar.as_const(r).is_some() {
            self.ite_hits += 1;
        }
        if self.ite_tries > 1000 {
            self.ite_tries /= 2;
            self.ite_hits /= 2;
        }
        r
    }

    /// An expression equal to `c` on this path, in which function applications with arguments that the
    /// path condition makes equal have become one.
    fn sweep(&mut self, c: E) -> X<E> {
        let mut map: HashMap<E, E> = HashMap::default();
        let mut reps: HashMap<(u32, usize), Vec<E>> = HashMap::default();
        for a in self.ar.apps(c) {
            let r = self.ar.rebuild(a, &mut map);
            let n = self.ar.node(r);
            if n.op != Op::Uf {
                continue;
            }
            let args = self.ar.kids(r);
            let key = (n.a, args.len());
            let mut to = r;
            for o in reps.get(&key).cloned().unwrap_or_default() {
                if o == r {
                    to = o;
                    break;
                }
                let oa = self.ar.kids(o);
                let mut same = self.ar.t();
                for (x, y) in args.iter().zip(&oa) {
                    let e = self.ar.eq(*x, *y);
                    same = self.ar.and(same, e);
                }
                if self.ar.as_const(same) == Some(0) || self.st.model_ok && self.ev(same) == 0 {
                    continue;
                }
                let differ = self.ar.not(same);
                let mut q = self.slice(differ);
                q.push(differ);
                self.z3.limit(10_000);
                self.stats.queries += 1;
                if let Res::Unsat = self.z3.check(&self.ar, &q, false) {
                    self.stats.unsat += 1;
                    to = o;
                    break;
                }
            }
            if to == r {
                reps.entry(key).or_default().push(r);
            }
            map.insert(a, to);
            map.insert(r, to);
        }
        Ok(self.ar.rebuild(c, &mut map))
    }

    /// Is pc && c satisfiable? Returns the updated model and whether it is valid under the concrete
    /// crypto functions.
    fn sat(&mut self, c: E) -> X<Option<(Rc<Vec<u64>>, bool)>> {
        if let Some(v) = self.ar.as_const(c) {
            return Ok(if v == 1 { Some((self.st.model.clone(), self.st.model_ok)) } else { None });
        }
        let nc = self.ar.not(c);
        if self.st.pc.contains(&nc) {
            return Ok(None);
        }
        if self.st.model_ok && self.ev(c) == 1 {
            return Ok(Some((self.st.model.clone(), true)));
        }
        let mut q = self.slice(c);
        q.push(c);
        q.sort();
        q.dedup();
        let r = if let Some(r) = self.qcache.get(&q) {
            self.stats.query_cached += 1;
            r.clone()
        } else {
            let t = Instant::now();
            if self.late() {
                return Err(Stop::Fatal("time limit".into()));
            }
            // merge the function applications the path condition makes equal, then ask
            let c2 = if self.ar.varset(c)[0] & 0xff != 0 { self.sweep(c)? } else { c };
            let c2 = if c2 == c { self.decide_ites(c) } else { c2 };
            let r = if self.ar.as_const(c2) == Some(0) {
                Res::Unsat
            } else if c2 == c {
                self.check(&q)
            } else {
                let mut q2 = self.slice(c);
                q2.push(c2);
                match self.check(&q2) {
                    // the model must give every variable of the question a value
                    Res::Sat(_) => self.check(&q),
                    r => r,
                }
            };
            let dt = t.elapsed().as_secs_f64();
            self.stats.solver_s += dt;
            if self.verbose && dt > 1.0 {
                eprintln!("slow query {:.1}s ({} constraints) at {}", dt, q.len(), self.where_().join(" < "));
            }
            let r = match r {
                Res::Sat(v) => {
                    self.stats.sat += 1;
                    Some(v)
                }
                Res::Unsat => {
                    self.stats.unsat += 1;
                    if self.smt_kept.len() < self.smt_keep && self.stats.unsat % 17 == 1 {
                        let t = self.z3.smt2(&self.ar, &q);
                        self.smt_kept.push(format!("(set-logic QF_UFBV)\n{}\n(check-sat)\n", t));
                    }
                    None
                }
                Res::Unknown => {
                    if let Ok(f) = std::env::var("SYMEX_DUMP") {
                        let t = self.z3.smt2(&self.ar, &q);
                        std::fs::write(f, format!("(set-logic ALL)\n{}\n(check-sat)\n", t)).unwrap();
                    }
                    if !self.st.model_ok {
                        return Err(Stop::Fatal("undecided: the solver gave no answer".into()));
                    }
                    // the model falsifies `c`: go on with its values only, and say so in the end
                    self.stats.undecided += 1;
                    self.pin(c);
                    return Ok(None);
                }
            };
            self.qcache.insert(q.clone(), r.clone());
            r
        };
        match r {
            None => Ok(None),
            Some(vals) => {
                let mut m = (*self.st.model).clone();
                for (v, x) in vals {
                    if m.len() <= v as usize {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = x;
                }
                let m = Rc::new(m);
                // check under concrete crypto (and as a sanity check of the translation)
                self.last_model = m.clone();
                self.ar.new_eval();
                let mut ok = self.st.model_ok;
                let pc = if self.st.model_ok { q } else { self.st.pc.iter().copied().chain([c]).collect() };
                if !self.st.model_ok {
                    ok = true;
                }
                for p in pc {
                    if self.ar.eval(p, &m) != 1 {
                        ok = false;
                        break;
                    }
                }
                Ok(Some((m, ok)))
            }
        }
    }

    fn add_constraint(&mut self, c: E) {
        let n = self.ar.node(c);
        if n.op == Op::And {
            self.add_constraint(n.a);
            self.add_constraint(n.b);
            return;
        }
        if self.ar.as_const(c).is_some() || self.st.pc.contains(&c) {
            return;
        }
        self.st.pc.push(c);
    }

    /// Decide a branch. May push the other side onto the stack (which will re-execute the current
    /// instruction under the opposite constraint).
    fn branch(&mut self, c: E) -> X<bool> {
        if let Some(v) = self.ar.as_const(c) {
            return Ok(v == 1);
        }
        if self.st.pc.contains(&c) {
            return Ok(true);
        }
        let nc = self.ar.not(c);
        if self.st.pc.contains(&nc) {
            return Ok(false);
        }
        let (dir, here, there) = if self.st.model_ok {
            if self.ev(c) == 1 {
                (true, c, nc)
            } else {
                (false, nc, c)
            }
        } else {
            match self.sat(c)? {
                Some((m, ok)) => {
                    // this state takes c
                    let other = self.sat(nc)?;
                    if let Some((m2, ok2)) = other {
                        self.push_fork(nc, m2, ok2);
                        self.st.model = m;
                        self.st.model_ok = ok;
                        self.add_constraint(c);
                    }
                    return Ok(true);
                }
                None => return Ok(false),
            }
        };
        match self.sat(there)? {
            None => Ok(dir),
            Some((m, ok)) => {
                self.push_fork(there, m, ok);
                self.add_constraint(here);
                Ok(dir)
            }
        }
    }

    fn push_fork(&mut self, c: E, m: Rc<Vec<u64>>, ok: bool) {
        self.stats.forks += 1;
        let mut s = self.st.clone();
        std::mem::swap(&mut s, &mut self.st);
        self.add_constraint(c);
        self.st.model = m;
        self.st.model_ok = ok;
        std::mem::swap(&mut s, &mut self.st);
        self.stack.push(s);
    }

    /// A value of `e` possible on this path.
    fn some_value(&mut self, e: E) -> X<u128> {
        if self.st.model_ok {
            return Ok(self.ev(e));
        }
        // ask the solver for any model of the abstract path condition with e exposed
        let w = self.ar.w(e);
        if w > 64 {
            return Err(Stop::Fatal("value query too wide".into()));
        }
        let fv = self.named_var("probe".into(), w, 0, w);
        let c = self.ar.eq(e, fv);
        let mut q = self.slice(c);
        q.push(c);
        self.stats.queries += 1;
        match self.z3.check(&self.ar, &q, true) {
            Res::Sat(v) => {
                let vi = self.ar.node(fv).a;
                Ok(v.iter().find(|x| x.0 == vi).map(|x| x.1 as u128).unwrap_or(0))
            }
            Res::Unsat => Err(Stop::End),
            Res::Unknown => Err(Stop::Fatal("undecided: the solver gave no answer".into())),
        }
    }

    fn concretize(&mut self, v: &V, w: u32) -> X<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                let k = self.some_value(*e)?;
                let ke = self.ar.konst(w, k);
                let c = self.ar.eq(*e, ke);
                if self.branch(c)? {
                    Ok(k)
                } else {
                    // cannot happen when the model is good; retry
                    let k = self.some_value(*e)?;
                    let ke = self.ar.konst(w, k);
                    let c = self.ar.eq(*e, ke);
                    if self.branch(c)? {
                        Ok(k)
                    } else {
                        Err(Stop::Fatal("concretisation failed".into()))
                    }
                }
            }
            V::U => Err(Stop::Fatal("concretising undefined value".into())),
            V::A(_) => Err(Stop::Fatal("concretising aggregate".into())),
        }
    }

    fn named_var(&mut self, name: String, w: u32, idx: u32, byte: u32) -> E {
        let k = (name, idx, byte);
        if let Some(&e) = self.vars.get(&k) {
            return e;
        }
        let n = format!("{}_{}_{}", k.0, k.1, k.2);
        let e = self.ar.var(n, w);
        self.vars.insert(k, e);
        e
    }

    fn fresh_undef(&mut self, w: u32) -> E {
        let i = self.st.undefs;
        self.st.undefs += 1;
        self.named_var(format!("undef{}", w), w, i, 0)
    }

    // ------------------------------------------------------------ violations

    pub fn violation(&mut self, kind: &str, msg: String, model: Rc<Vec<u64>>, ok: bool) {
        let key = format!("{}|{}", kind, msg);
        if !self.viol_keys.insert(key) {
            return;
        }
        self.last_model = model.clone();
        self.ar.new_eval();
        let inputs = self.st.inputs.clone();
        let inputs = inputs
            .into_iter()
            .map(|(n, es)| (n, es.into_iter().map(|e| self.ar.eval(e, &model) as u8).collect()))
            .collect();
        if let Some(s) = &self.stop {
            s.fetch_min(millis() + 45_000, std::sync::atomic::Ordering::Relaxed);
        }
        self.viol.push(Violation { kind: kind.into(), msg, inputs, model_ok: ok, trace: self.where_() });
    }

    fn fail_here(&mut self, kind: &str, msg: String) -> Stop {
        let (m, ok) = (self.st.model.clone(), self.st.model_ok);
        self.violation(kind, msg, m, ok);
        self.stats.paths += 1;
        Stop::End
    }

    /// A path that runs away: reported as a suspected hang or exhaustion, for the native replay to
    /// confirm; the rest of the job is not explored.
    fn give_up(&mut self, msg: String) -> Stop {
        self.stack.clear();
        self.gave_up = true;
        self.fail_here("limit", msg)
    }

    // ------------------------------------------------------------ values

    fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.ar.konst(w, *c),
            V::S(e) => *e,
            V::U => self.fresh_undef(w),
            V::A(_) => panic!("aggregate as integer"),
        }
    }
    fn from_e(&self, e: E) -> V {
        match self.ar.as_const(e) {
            Some(c) => V::C(c),
            None => V::S(e),
        }
    }

    fn opd(&self, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => self.st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(c) => V::C(*c),
            Opd::Undef => V::U,
            Opd::Agg(a) => V::A(Rc::new(a.iter().map(cval).collect())),
        }
    }
    fn set(&mut self, r: u32, v: V) {
        let f = Rc::make_mut(self.st.frames.last_mut().unwrap());
        f.regs[r as usize] = v;
    }
    fn next(&mut self) {
        Rc::make_mut(self.st.frames.last_mut().unwrap()).ip += 1;
    }

    fn goto(&mut self, m: &Module, target: u32) {
        let (func, from) = {
            let f = self.st.frames.last().unwrap();
            (f.func, f.block)
        };
        let blk = &m.funcs[func as usize].blocks[target as usize];
        if !blk.phis.is_empty() {
            let vals: Vec<(u32, V)> = blk
                .phis
                .iter()
                .map(|(d, inc)| {
                    let o = inc.iter().find(|(b, _)| *b == from).expect("phi edge");
                    (*d, self.opd(&o.1))
                })
                .collect();
            for (d, v) in vals {
                self.set(d, v);
            }
        }
        let f = Rc::make_mut(self.st.frames.last_mut().unwrap());
        f.block = target;
        f.ip = 0;
    }

    fn binop(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => (sext_val(x, w) >> (y.min(w as u128 - 1) as u32)) as u128,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                    return Err(self.fail_here("ub", "division by zero".into()));
                }
                BinOp::UDiv => x / y,
                BinOp::URem => x % y,
                BinOp::SDiv => sext_val(x, w).wrapping_div(sext_val(y, w)) as u128,
                BinOp::SRem => sext_val(x, w).wrapping_rem(sext_val(y, w)) as u128,
            };
            return Ok(V::C(r & m));
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let ar = &mut self.ar;
        let r = match op {
            BinOp::Add => ar.add(x, y),
            BinOp::Sub => ar.sub(x, y),
            BinOp::Mul => ar.mul(x, y),
            BinOp::And => ar.and(x, y),
            BinOp::Or => ar.or(x, y),
            BinOp::Xor => ar.xor(x, y),
            BinOp::Shl => ar.shl(x, y),
            BinOp::LShr => ar.lshr(x, y),
            BinOp::AShr => ar.ashr(x, y),
            BinOp::UDiv => ar.udiv(x, y),
            BinOp::URem => ar.urem(x, y),
            BinOp::SDiv => ar.sdiv(x, y),
            BinOp::SRem => ar.srem(x, y),
        };
        Ok(self.from_e(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext_val(x, w) > sext_val(y, w),
                Pred::Sge => sext_val(x, w) >= sext_val(y, w),
                Pred::Slt => sext_val(x, w) < sext_val(y, w),
                Pred::Sle => sext_val(x, w) <= sext_val(y, w),
            };
            return V::C(r as u128);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => ar.ne(x, y),
            Pred::Ugt => ar.ult(y, x),
            Pred::Uge => ar.ule(y, x),
            Pred::Ult => ar.ult(x, y),
            Pred::Ule => ar.ule(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sge => ar.sle(y, x),
            Pred::Slt => ar.slt(x, y),
            Pred::Sle => ar.sle(x, y),
        };
        self.from_e(r)
    }

    fn select(&mut self, w: u32, c: &V, a: V, b: V) -> V {
        match c {
            V::C(1) => return a,
            V::C(_) => return b,
            V::U => return a,
            _ => {}
        }
        match (&a, &b) {
            (V::U, _) => return b,
            (_, V::U) => return a,
            (V::A(x), V::A(y)) => {
                let (x, y) = (x.clone(), y.clone());
                let r = x.iter().zip(y.iter()).map(|(p, q)| self.select(0, c, p.clone(), q.clone())).collect();
                return V::A(Rc::new(r));
            }
            _ => {}
        }
        let w = if w == 0 {
            match (&a, &b) {
                (V::S(e), _) | (_, V::S(e)) => self.ar.w(*e),
                _ => 64,
            }
        } else {
            w
        };
        let ce = self.to_e(c, 1);
        let x = self.to_e(&a, w);
        let y = self.to_e(&b, w);
        let r = self.ar.ite(ce, x, y);
        self.from_e(r)
    }

    // ------------------------------------------------------------ memory

    fn resolve(&mut self, a: &V, n: u64) -> X<Place> {
        match a {
            V::C(c) => {
                let addr = *c as u64;
                let id = (addr >> 32) as u32;
                let off = (addr & 0xffff_ffff).wrapping_sub(OBJ_OFF);
                match self.st.mem.get(id) {
                    Some(o) if off <= o.size && off + n <= o.size => Ok(Place::Conc(id, off)),
                    Some(o) => {
                        let s = o.size;
                        Err(self.fail_here("memory", format!("access of {} bytes at offset {} of a {}-byte object", n, off as i64, s)))
                    }
                    None => Err(self.fail_here("memory", format!("access of {} bytes at invalid address {:#x}", n, addr))),
                }
            }
            V::S(e) => {
                let v = self.some_value(*e)? as u64;
                let id = (v >> 32) as u32;
                let off = (v & 0xffff_ffff).wrapping_sub(OBJ_OFF);
                let size = match self.st.mem.get(id) {
                    Some(o) if off <= o.size && off + n <= o.size => o.size,
                    Some(o) => {
                        let s = o.size;
                        return Err(self.fail_here("memory", format!("access of {} bytes at offset {} of a {}-byte object", n, off as i64, s)));
                    }
                    None => {
                        return Err(self.fail_here("memory", format!("access of {} bytes at invalid address", n)));
                    }
                };
                let base = self.ar.konst(64, obj_addr(id) as u128);
                let offe = self.ar.sub(*e, base);
                let lim = self.ar.konst(64, (size - n) as u128);
                let inb = self.ar.ule(offe, lim);
                if !self.branch(inb)? {
                    return Err(Stop::Fatal("pointer resolution".into()));
                }
                if let Some(c) = self.ar.as_const(offe) {
                    return Ok(Place::Conc(id, c as u64));
                }
                Ok(Place::Sym(id, offe))
            }
            _ => Err(self.fail_here("memory", "access through undefined pointer".into())),
        }
    }

    fn cell_e(&mut self, c: u32) -> E {
        if c < 256 {
            self.ar.konst(8, c as u128)
        } else if c == UNINIT {
            self.fresh_undef(8)
        } else {
            c - SYM
        }
    }
    fn e_cell(&self, e: E) -> u32 {
        match self.ar.as_const(e) {
            Some(v) => v as u32 & 0xff,
            None => e + SYM,
        }
    }

    fn cells_to_e(&mut self, cells: &[u32]) -> E {
        let mut r = self.cell_e(cells[0]);
        for &c in &cells[1..] {
            let h = self.cell_e(c);
            r = self.ar.concat(h, r);
        }
        r
    }

    /// Cells of object `id` at `off`, as one value of n bytes (n<=16).
    fn read_val(&mut self, id: u32, off: u64, n: u64) -> V {
        let o = self.st.mem.get(id).unwrap().clone();
        let cs = &o.cells[off as usize..(off + n) as usize];
        if cs.iter().all(|c| *c < 256) {
            let mut v = 0u128;
            for (i, c) in cs.iter().enumerate() {
                v |= (*c as u128) << (8 * i);
            }
            return V::C(v);
        }
        if cs.iter().all(|c| *c == UNINIT) {
            return V::U;
        }
        let e = self.cells_to_e(cs);
        self.from_e(e)
    }

    fn read_sym(&mut self, id: u32, off: E, n: u64) -> X<V> {
        let o = self.st.mem.get(id).unwrap().clone();
        let ones = self.ar.maybe_ones(off);
        let (mut lo, mut hi) = self.ar.range(off);
        hi = hi.min((o.size - n) as u128);
        let step: u128 = if ones == 0 { 1 } else { 1 << ones.trailing_zeros().min(8) };
        lo = (lo + step - 1) / step * step;
        let cnt = if hi >= lo { (hi - lo) / step + 1 } else { 0 };
        if cnt == 0 {
            return Err(Stop::Fatal("empty symbolic read".into()));
        }
        if cnt > 8192 {
            let k = self.concretize(&V::S(off), 64)?;
            return Ok(self.read_val(id, k as u64, n));
        }
        // runs of equal values
        let mut runs: Vec<(u128, E)> = Vec::new();
        let mut k = lo;
        while k <= hi {
            let cs: Vec<u32> = o.cells[k as usize..(k as u64 + n) as usize].to_vec();
            let ok = ones & k == k || ones == 0;
            if ok {
                let e = if cs.iter().all(|c| *c == UNINIT) {
                    u32::MAX // skip: reading entirely uninitialised memory
                } else {
                    self.cells_to_e(&cs)
                };
                if e != u32::MAX && runs.last().map(|r| r.1) != Some(e) {
                    runs.push((k, e));
                }
            }
            k += step;
        }
        if runs.is_empty() {
            return Ok(V::U);
        }
        let e = self.tree(off, &runs);
        Ok(self.from_e(e))
    }
    fn tree(&mut self, off: E, runs: &[(u128, E)]) -> E {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let mid = runs.len() / 2;
        let l = self.tree(off, &runs[..mid]);
        let r = self.tree(off, &runs[mid..]);
        let k = self.ar.konst(64, runs[mid].0);
        let c = self.ar.ult(off, k);
        self.ar.ite(c, l, r)
    }

    fn load_scalar(&mut self, a: &V, bits: u32) -> X<V> {
        let n = ((bits + 7) / 8) as u64;
        let v = match self.resolve(a, n)? {
            Place::Conc(id, off) => self.read_val(id, off, n),
            Place::Sym(id, off) => self.read_sym(id, off, n)?,
        };
        Ok(match v {
            V::C(c) => V::C(c & mask(bits)),
            V::S(e) if bits % 8 != 0 => {
                let e = self.ar.trunc(e, bits);
                self.from_e(e)
            }
            v => v,
        })
    }

    fn add_off(&mut self, a: &V, k: u64) -> V {
        match a {
            V::C(c) => V::C(c + k as u128),
            V::S(e) => {
                let kk = self.ar.konst(64, k as u128);
                let r = self.ar.add(*e, kk);
                self.from_e(r)
            }
            v => v.clone(),
        }
    }

    fn load(&mut self, t: TyId, a: &V) -> X<V> {
        let m = self.m;
        match m.ty(t) {
            Ty::Int(n) => self.load_scalar(a, *n),
            Ty::Ptr => self.load_scalar(a, 64),
            Ty::Float(n) => self.load_scalar(a, *n),
            Ty::Array(n, e) => {
                let s = m.size(*e);
                let mut r = Vec::new();
                for i in 0..*n {
                    let p = self.add_off(a, i * s);
                    r.push(self.load(*e, &p)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Vec(n, e) => {
                if m.bits(*e) % 8 != 0 {
                    return Err(Stop::Fatal("load of sub-byte vector".into()));
                }
                let s = m.bits(*e) as u64 / 8;
                let mut r = Vec::new();
                for i in 0..*n as u64 {
                    let p = self.add_off(a, i * s);
                    r.push(self.load(*e, &p)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Struct(pk, fs) => {
                let mut r = Vec::new();
                for i in 0..fs.len() {
                    let p = self.add_off(a, m.field_off(*pk, fs, i));
                    r.push(self.load(fs[i], &p)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => Err(Stop::Fatal("load type".into())),
        }
    }

    fn write_cells(&mut self, id: u32, off: u64, cells: &[u32]) -> X<()> {
        if self.st.mem.get(id).unwrap().ro {
            return Err(self.fail_here("memory", "write to constant memory".into()));
        }
        let o = self.st.mem.get_mut(id).unwrap();
        o.cells[off as usize..off as usize + cells.len()].copy_from_slice(cells);
        Ok(())
    }

    fn val_cells(&mut self, v: &V, bits: u32) -> Vec<u32> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            V::C(c) => (0..n).map(|i| (c >> (8 * i)) as u32 & 0xff).collect(),
            V::U => vec![UNINIT; n],
            V::S(e) => {
                let e = if bits % 8 != 0 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                (0..n)
                    .map(|i| {
                        let b = self.ar.extract(e, 8 * i as u32, 8);
                        self.e_cell(b)
                    })
                    .collect()
            }
            V::A(_) => panic!("aggregate scalar"),
        }
    }

    fn store_addr(&mut self, a: &V, n: u64) -> X<(u32, u64)> {
        if n == 0 {
            return Ok((0, 0));
        }
        match self.resolve(a, n)? {
            Place::Conc(id, off) => Ok((id, off)),
            Place::Sym(id, off) => {
                let k = self.concretize(&V::S(off), 64)?;
                Ok((id, k as u64))
            }
        }
    }

    fn store(&mut self, t: TyId, v: &V, a: &V) -> X<()> {
        let m = self.m;
        match m.ty(t) {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let bits = m.bits(t);
                let n = ((bits + 7) / 8) as u64;
                let (id, off) = self.store_addr(a, n)?;
                let cells = self.val_cells(v, bits);
                self.write_cells(id, off, &cells)
            }
            _ => {
                let n = m.size(t);
                let (id, off) = self.store_addr(a, n)?;
                let a = V::C((obj_addr(id) + off) as u128);
                let vs = match v {
                    V::A(x) => x.clone(),
                    V::U => return self.write_cells(id, off, &vec![UNINIT; n as usize]),
                    _ => return Err(Stop::Fatal("store aggregate".into())),
                };
                match m.ty(t) {
                    Ty::Array(_, e) => {
                        for (i, x) in vs.iter().enumerate() {
                            let p = self.add_off(&a, i as u64 * m.size(*e));
                            self.store(*e, x, &p)?;
                        }
                    }
                    Ty::Vec(_, e) => {
                        let s = m.bits(*e) as u64 / 8;
                        for (i, x) in vs.iter().enumerate() {
                            let p = self.add_off(&a, i as u64 * s);
                            self.store(*e, x, &p)?;
                        }
                    }
                    Ty::Struct(pk, fs) => {
                        for (i, x) in vs.iter().enumerate() {
                            let p = self.add_off(&a, m.field_off(*pk, fs, i));
                            self.store(fs[i], x, &p)?;
                        }
                    }
                    _ => return Err(Stop::Fatal("store type".into())),
                }
                Ok(())
            }
        }
    }

    /// n cells starting at `a` (possibly symbolic address).
    fn read_cells(&mut self, a: &V, n: u64) -> X<Vec<u32>> {
        if n == 0 {
            return Ok(vec![]);
        }
        match self.resolve(a, n)? {
            Place::Conc(id, off) => {
                let o = self.st.mem.get(id).unwrap();
                Ok(o.cells[off as usize..(off + n) as usize].to_vec())
            }
            Place::Sym(id, off) => {
                let mut r = Vec::with_capacity(n as usize);
                for i in 0..n {
                    let ie = self.ar.konst(64, i as u128);
                    let o = self.ar.add(off, ie);
                    let v = match self.ar.as_const(o) {
                        Some(c) => self.read_val(id, c as u64, 1),
                        None => self.read_sym(id, o, 1)?,
                    };
                    r.push(match v {
                        V::C(c) => c as u32,
                        V::S(e) => e + SYM,
                        _ => UNINIT,
                    });
                }
                Ok(r)
            }
        }
    }
    fn read_es(&mut self, a: &V, n: u64) -> X<Vec<E>> {
        let c = self.read_cells(a, n)?;
        Ok(c.into_iter().map(|c| self.cell_e(c)).collect())
    }
    fn read_conc(&mut self, a: &V, n: &V) -> X<Vec<u8>> {
        let n = self.concretize(n, 64)?;
        let c = self.read_cells(a, n as u64)?;
        c.into_iter()
            .map(|c| if c < 256 { Ok(c as u8) } else { Err(Stop::Fatal("symbolic bytes in a label".into())) })
            .collect()
    }
    fn write_es(&mut self, a: &V, es: &[E]) -> X<()> {
        if es.is_empty() {
            return Ok(());
        }
        let (id, off) = self.store_addr(a, es.len() as u64)?;
        let cells: Vec<u32> = es.iter().map(|&e| self.e_cell(e)).collect();
        self.write_cells(id, off, &cells)
    }

    // ------------------------------------------------------------ instructions

    fn step(&mut self, ins: &Inst) -> X<()> {
        let m = self.m;
        match ins {
            Inst::Bin(op, t, d, a, b) => {
                let (x, y) = (self.opd(a), self.opd(b));
                let v = match m.ty(*t) {
                    Ty::Vec(n, e) => {
                        let w = m.bits(*e);
                        let (n, mut r) = (*n as usize, Vec::new());
                        for i in 0..n {
                            let (p, q) = (elem(&x, i), elem(&y, i));
                            r.push(self.binop(*op, w, &p, &q)?);
                        }
                        V::A(Rc::new(r))
                    }
                    _ => self.binop(*op, m.bits(*t), &x, &y)?,
                };
                self.set(*d, v);
                self.next();
            }
            Inst::Icmp(p, t, d, a, b) => {
                let (x, y) = (self.opd(a), self.opd(b));
                let v = match m.ty(*t) {
                    Ty::Vec(n, e) => {
                        let w = m.bits(*e);
                        let r = (0..*n as usize)
                            .map(|i| {
                                let (q, s) = (elem(&x, i), elem(&y, i));
                                self.icmp(*p, w, &q, &s)
                            })
                            .collect();
                        V::A(Rc::new(r))
                    }
                    _ => self.icmp(*p, m.bits(*t), &x, &y),
                };
                self.set(*d, v);
                self.next();
            }
            Inst::Cast(op, t1, t2, d, a) => {
                let x = self.opd(a);
                let v = self.cast(*op, *t1, *t2, x)?;
                self.set(*d, v);
                self.next();
            }
            Inst::Select(t, d, c, a, b, isvec) => {
                let (c, x, y) = (self.opd(c), self.opd(a), self.opd(b));
                let v = if *isvec {
                    let (n, w) = match m.ty(*t) {
                        Ty::Vec(n, e) => (*n as usize, m.bits(*e)),
                        _ => return Err(Stop::Fatal("vector select".into())),
                    };
                    let r = (0..n)
                        .map(|i| {
                            let ci = elem(&c, i);
                            self.select(w, &ci, elem(&x, i), elem(&y, i))
                        })
                        .collect();
                    V::A(Rc::new(r))
                } else if matches!(c, V::S(_)) && self.in_unicode_table() {
                    // a branchless search over a table: one path per entry instead of one huge load
                    let ce = self.to_e(&c, 1);
                    if self.branch(ce)? {
                        x
                    } else {
                        y
                    }
                } else {
                    self.select(m.bits(*t), &c, x, y)
                };
                self.set(*d, v);
                self.next();
            }
            Inst::Load(t, d, p) => {
                let a = self.opd(p);
                let v = self.load(*t, &a)?;
                self.set(*d, v);
                self.next();
            }
            Inst::Store(t, v, p) => {
                let (v, a) = (self.opd(v), self.opd(p));
                self.store(*t, &v, &a)?;
                self.next();
            }
            Inst::Gep(d, b, off, dyns) => {
                let base = self.opd(b);
                let mut cur = match base {
                    V::C(c) => V::C((c as u64).wrapping_add(*off as u64) as u128),
                    V::U => V::U,
                    _ => {
                        let k = V::C(*off as u64 as u128);
                        self.binop(BinOp::Add, 64, &base, &k)?
                    }
                };
                for (o, w, scale) in dyns {
                    let i = self.opd(o);
                    let i64v = match i {
                        V::C(c) => V::C(sext_val(c, *w) as u64 as u128),
                        V::S(e) => {
                            let s = if *w < 64 { self.ar.sext(e, 64) } else { self.ar.trunc(e, 64) };
                            self.from_e(s)
                        }
                        v => v,
                    };
                    let sc = self.binop(BinOp::Mul, 64, &i64v, &V::C(*scale as u128))?;
                    cur = self.binop(BinOp::Add, 64, &cur, &sc)?;
                }
                self.set(*d, cur);
                self.next();
            }
            Inst::Alloca(d, size, n) => {
                let n = self.opd(n);
                let n = self.concretize(&n, 64)? as u64;
                let a = self.st.mem.alloc(size * n, UNINIT, false);
                let f = Rc::make_mut(self.st.frames.last_mut().unwrap());
                f.allocas.push((a >> 32) as u32);
                f.regs[*d as usize] = V::C(a as u128);
                f.ip += 1;
            }
            Inst::Call(c) => return self.call(m, c),
            Inst::Extract(_, d, a, idx) => {
                let mut v = self.opd(a);
                for &i in idx {
                    v = elem(&v, i as usize);
                }
                self.set(*d, v);
                self.next();
            }
            Inst::Insert(d, t, a, v, idx) => {
                let (x, y) = (self.opd(a), self.opd(v));
                let r = insert(m, *t, x, y, idx);
                self.set(*d, r);
                self.next();
            }
            Inst::ExtElem(d, _, a, i) => {
                let (x, i) = (self.opd(a), self.opd(i));
                let k = self.concretize(&i, 64)? as usize;
                self.set(*d, elem(&x, k));
                self.next();
            }
            Inst::InsElem(d, t, a, v, i) => {
                let (x, v, i) = (self.opd(a), self.opd(v), self.opd(i));
                let k = self.concretize(&i, 64)? as u32;
                let r = insert(m, *t, x, v, &[k]);
                self.set(*d, r);
                self.next();
            }
            Inst::Shuffle(d, t, a, b, mk) => {
                let (x, y) = (self.opd(a), self.opd(b));
                let n = match m.ty(*t) {
                    Ty::Vec(n, _) => *n as usize,
                    _ => return Err(Stop::Fatal("shuffle".into())),
                };
                let r = mk
                    .iter()
                    .map(|&i| {
                        let i = i as usize;
                        if i < n {
                            elem(&x, i)
                        } else {
                            elem(&y, i - n)
                        }
                    })
                    .collect();
                self.set(*d, V::A(Rc::new(r)));
                self.next();
            }
            Inst::Rmw(op, t, d, p, v) => {
                let (a, v) = (self.opd(p), self.opd(v));
                let w = m.bits(*t);
                let old = self.load(*t, &a)?;
                let new = match *op {
                    "add" => self.binop(BinOp::Add, w, &old, &v)?,
                    "sub" => self.binop(BinOp::Sub, w, &old, &v)?,
                    "and" => self.binop(BinOp::And, w, &old, &v)?,
                    "or" => self.binop(BinOp::Or, w, &old, &v)?,
                    "xor" => self.binop(BinOp::Xor, w, &old, &v)?,
                    "xchg" => v,
                    _ => return Err(Stop::Fatal(format!("atomicrmw {}", op))),
                };
                self.store(*t, &new, &a)?;
                self.set(*d, old);
                self.next();
            }
            Inst::Cmpxchg(t, d, p, c, n) => {
                let (a, c, n) = (self.opd(p), self.opd(c), self.opd(n));
                let w = m.bits(*t);
                let old = self.load(*t, &a)?;
                let eq = self.icmp(Pred::Eq, w, &old, &c);
                let ok = match eq {
                    V::C(x) => x == 1,
                    V::S(e) => self.branch(e)?,
                    _ => false,
                };
                if ok {
                    self.store(*t, &n, &a)?;
                }
                self.set(*d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
                self.next();
            }
            Inst::Freeze(t, d, a) => {
                let x = self.opd(a);
                let v = match x {
                    V::U => {
                        let w = m.bits(*t);
                        if w == 0 {
                            V::U
                        } else {
                            let e = self.fresh_undef(w);
                            V::S(e)
                        }
                    }
                    v => v,
                };
                self.set(*d, v);
                self.next();
            }
            Inst::Nop => self.next(),
            Inst::Br(l) => self.goto(m, *l),
            Inst::CondBr(c, a, b) => {
                let c = self.opd(c);
                let t = match c {
                    V::C(x) => x == 1,
                    V::S(e) => self.branch(e)?,
                    V::U => {
                        let e = self.fresh_undef(1);
                        self.branch(e)?
                    }
                    V::A(_) => return Err(Stop::Fatal("branch on aggregate".into())),
                };
                self.goto(m, if t { *a } else { *b });
            }
            Inst::Switch(w, c, def, cases) => {
                let v = self.opd(c);
                match v {
                    V::C(x) => {
                        let t = cases.iter().find(|(k, _)| *k == x).map(|(_, l)| *l).unwrap_or(*def);
                        self.goto(m, t);
                    }
                    V::S(e) => {
                        // the target taken under the model, against all others
                        let x = self.some_value(e)?;
                        let tgt = cases.iter().find(|(k, _)| *k == x).map(|(_, l)| *l).unwrap_or(*def);
                        let mut cond = self.ar.f();
                        if tgt == *def {
                            let mut any = self.ar.f();
                            for (k, l) in cases {
                                if *l != tgt {
                                    let ke = self.ar.konst(*w, *k);
                                    let q = self.ar.eq(e, ke);
                                    any = self.ar.or(any, q);
                                }
                            }
                            cond = self.ar.not(any);
                        } else {
                            for (k, l) in cases {
                                if *l == tgt {
                                    let ke = self.ar.konst(*w, *k);
                                    let q = self.ar.eq(e, ke);
                                    cond = self.ar.or(cond, q);
                                }
                            }
                        }
                        if self.branch(cond)? {
                            self.goto(m, tgt);
                        }
                        // otherwise: re-execute under the new constraint (abstract model case)
                    }
                    _ => return Err(Stop::Fatal("switch on undef".into())),
                }
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.opd(o));
                let fr = self.st.frames.pop().unwrap();
                for &a in &fr.allocas {
                    self.st.mem.free_id(a);
                }
                if self.st.frames.is_empty() {
                    return Ok(());
                }
                if let (Some(d), Some(v)) = (fr.dst, r) {
                    self.set(d, v);
                }
                match fr.normal {
                    Some(l) => self.goto(m, l),
                    None => self.next(),
                }
            }
            Inst::Unreachable => return Err(self.fail_here("ub", "unreachable code reached".into())),
            Inst::Fp(op, t, t2, d, args) => {
                let (w, w2) = (m.bits(*t), m.bits(*t2));
                let flt = |t: TyId| matches!(m.ty(t), Ty::Float(_));
                let mut x = vec![];
                for o in args {
                    let v = self.opd(o);
                    x.push(self.concretize(&v, w)?);
                }
                let r = fp(op, flt(*t), w, flt(*t2), w2, &x);
                match r {
                    Some(r) => self.set(*d, V::C(r & mask(w2))),
                    None => return Err(Stop::Fatal(format!("unsupported instruction {}", op))),
                }
                self.next();
            }
            Inst::Unsupported(s) => return Err(Stop::Fatal(format!("unsupported instruction {}", s))),
        }
        Ok(())
    }

    fn cast(&mut self, op: CastOp, t1: TyId, t2: TyId, x: V) -> X<V> {
        let m = self.m;
        if let (Ty::Vec(n, e1), Ty::Vec(n2, e2)) = (m.ty(t1), m.ty(t2)) {
            if op != CastOp::Bitcast && n == n2 {
                let mut r = Vec::new();
                for i in 0..*n as usize {
                    r.push(self.cast(op, *e1, *e2, elem(&x, i))?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        if op == CastOp::Bitcast {
            // flatten to bits and rebuild
            let (v1, v2) = (m.ty(t1).clone(), m.ty(t2).clone());
            match (&v1, &v2) {
                (Ty::Vec(n, e), Ty::Int(_)) => {
                    let w = m.bits(*e);
                    let mut r: Option<E> = None;
                    for i in 0..*n as usize {
                        let el = elem(&x, i);
                        let p = self.to_e(&el, w);
                        r = Some(match r {
                            None => p,
                            Some(q) => self.ar.concat(p, q),
                        });
                    }
                    return Ok(self.from_e(r.unwrap()));
                }
                (Ty::Int(wi), Ty::Vec(n, e)) => {
                    let w = m.bits(*e);
                    let p = self.to_e(&x, *wi);
                    let mut r = Vec::new();
                    for i in 0..*n {
                        let q = self.ar.extract(p, i * w, w);
                        r.push(self.from_e(q));
                    }
                    return Ok(V::A(Rc::new(r)));
                }
                (Ty::Vec(n, e), Ty::Vec(n2, e2)) => {
                    let (w, w2) = (m.bits(*e), m.bits(*e2));
                    let mut r: Option<E> = None;
                    for i in 0..*n as usize {
                        let el = elem(&x, i);
                        let p = self.to_e(&el, w);
                        r = Some(match r {
                            None => p,
                            Some(q) => self.ar.concat(p, q),
                        });
                    }
                    let p = r.unwrap();
                    let mut o = Vec::new();
                    for i in 0..*n2 {
                        let q = self.ar.extract(p, i * w2, w2);
                        o.push(self.from_e(q));
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                _ => return Ok(x),
            }
        }
        let (w1, w2) = (m.bits(t1), m.bits(t2));
        let op = if op == CastOp::PtrInt {
            if w1 > w2 {
                CastOp::Trunc
            } else {
                CastOp::ZExt
            }
        } else {
            op
        };
        Ok(match (op, x) {
            (_, V::U) => V::U,
            (CastOp::Trunc, V::C(c)) => V::C(c & mask(w2)),
            (CastOp::ZExt, V::C(c)) => V::C(c),
            (CastOp::SExt, V::C(c)) => V::C(sext_val(c, w1) as u128 & mask(w2)),
            (CastOp::Trunc, V::S(e)) => {
                let r = self.ar.trunc(e, w2);
                self.from_e(r)
            }
            (CastOp::ZExt, V::S(e)) => {
                let r = self.ar.zext(e, w2);
                self.from_e(r)
            }
            (CastOp::SExt, V::S(e)) => {
                let r = self.ar.sext(e, w2);
                self.from_e(r)
            }
            _ => return Err(Stop::Fatal("cast".into())),
        })
    }

    fn ret(&mut self, m: &Module, c: &CallI, v: Option<V>) -> X<()> {
        if let (Some(d), Some(v)) = (c.dst, v) {
            self.set(d, v);
        }
        match c.normal {
            Some(l) => self.goto(m, l),
            None => self.next(),
        }
        Ok(())
    }

    fn call(&mut self, m: &'static Module, c: &CallI) -> X<()> {
        let f = match &c.callee {
            Callee::Func(f) => *f,
            Callee::Ind(o) => {
                let v = self.opd(o);
                let a = self.concretize(&v, 64)? as u64;
                if a < FN_BASE || (a - FN_BASE) % 16 != 0 || ((a - FN_BASE) / 16) as usize >= m.funcs.len() {
                    return Err(self.fail_here("memory", format!("call through invalid function pointer {:#x}", a)));
                }
                ((a - FN_BASE) / 16) as u32
            }
        };
        let bi = self.bi[f as usize];
        if bi != Bi::None {
            return self.builtin(m, bi, c, f);
        }
        let func = &m.funcs[f as usize];
        if func.declared_only {
            return Err(Stop::Fatal(format!("call of external function {}", func.name)));
        }
        if self.st.frames.len() > 400 {
            return Err(self.give_up("call depth".into()));
        }
        self.funcs_used[f as usize] = true;
        let mut regs = vec![V::U; func.nregs as usize];
        for (i, p) in func.params.iter().enumerate() {
            regs[*p as usize] = self.opd(&c.args[i].1);
        }
        self.st.frames.push(Rc::new(Frame {
            func: f,
            block: 0,
            ip: 0,
            regs,
            allocas: vec![],
            dst: c.dst,
            normal: c.normal,
        }));
        Ok(())
    }

    // ------------------------------------------------------------ builtins

    fn sym_bytes(&mut self, name: &str, n: usize) -> Vec<E> {
        let idx = self.st.inputs.len() as u32;
        let es: Vec<E> = (0..n).map(|i| self.named_var(name.to_string(), 8, idx, i as u32)).collect();
        self.st.inputs.push((name.to_string(), es.clone()));
        es
    }

    fn panic_msg(&mut self, c: &CallI, f: u32) -> String {
        let mut out = short(&self.m.funcs[f as usize].name);
        let vals: Vec<V> = c.args.iter().map(|(_, o)| self.opd(o)).collect();
        // message: (ptr, len) or fmt::Arguments as (template, 2*len+1)
        if vals.len() >= 2 {
            if let (V::C(p), V::C(l)) = (&vals[0], &vals[1]) {
                let l = *l as u64;
                let len = if out.contains("panic_fmt") || out.contains("nounwind_fmt") {
                    if l & 1 == 1 && l < 4096 {
                        Some(l >> 1)
                    } else {
                        None
                    }
                } else if l < 400 {
                    Some(l)
                } else {
                    None
                };
                if let Some(len) = len {
                    if let Some(s) = self.peek_str(*p as u64, len) {
                        out = s;
                    }
                }
            }
        }
        // location: the last pointer argument
        if let Some(V::C(p)) = vals.last() {
            if let Some(loc) = self.peek_loc(*p as u64) {
                return format!("{} [{}]", out, loc);
            }
        }
        out
    }
    fn peek(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        let id = (a >> 32) as u32;
        let off = (a & 0xffff_ffff).wrapping_sub(OBJ_OFF);
        let o = self.st.mem.get(id)?;
        if off > o.size || off + n > o.size {
            return None;
        }
        o.cells[off as usize..(off + n) as usize].iter().map(|c| if *c < 256 { Some(*c as u8) } else { None }).collect()
    }
    fn peek_str(&self, a: u64, n: u64) -> Option<String> {
        let b = self.peek(a, n)?;
        let s = String::from_utf8(b).ok()?;
        Some(s)
    }
    fn peek_loc(&self, a: u64) -> Option<String> {
        let b = self.peek(a, 24)?;
        let p = u64::from_le_bytes(b[0..8].try_into().unwrap());
        let l = u64::from_le_bytes(b[8..16].try_into().unwrap());
        let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
        if l > 400 {
            return None;
        }
        let s = self.peek_str(p, l)?;
        Some(format!("{}:{}", s, line))
    }

    fn w_of(&self, m: &Module, c: &CallI, i: usize) -> u32 {
        m.bits(c.args[i].0)
    }

    fn overflow(&mut self, w: u32, bi: Bi, a: &V, b: &V) -> X<(V, V)> {
        let op = match bi {
            Bi::UAddO | Bi::SAddO => BinOp::Add,
            Bi::USubO | Bi::SSubO => BinOp::Sub,
            _ => BinOp::Mul,
        };
        let r = self.binop(op, w, a, b)?;
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let re = self.to_e(&r, w);
        let o = match bi {
            Bi::UAddO => {
                let (rx, ry) = (self.ar.range(x), self.ar.range(y));
                match rx.1.checked_add(ry.1) {
                    Some(s) if s <= mask(w) => self.ar.f(),
                    _ => self.ar.ult(re, x),
                }
            }
            Bi::USubO => self.ar.ult(x, y),
            Bi::UMulO => {
                let (rx, ry) = (self.ar.range(x), self.ar.range(y));
                match rx.1.checked_mul(ry.1) {
                    Some(s) if s <= mask(w) => self.ar.f(),
                    _ if self.ar.as_const(y).is_some() && self.ar.as_const(y) != Some(0) => {
                        let lim = self.ar.konst(w, mask(w) / self.ar.as_const(y).unwrap());
                        self.ar.ult(lim, x)
                    }
                    _ if self.ar.as_const(x).is_some() && self.ar.as_const(x) != Some(0) => {
                        let lim = self.ar.konst(w, mask(w) / self.ar.as_const(x).unwrap());
                        self.ar.ult(lim, y)
                    }
                    _ if w <= 64 => {
                        let xe = self.ar.zext(x, 2 * w);
                        let ye = self.ar.zext(y, 2 * w);
                        let p = self.ar.mul(xe, ye);
                        let h = self.ar.extract(p, w, w);
                        let z = self.ar.konst(w, 0);
                        self.ar.ne(h, z)
                    }
                    _ => {
                        if let (Some(p), Some(q)) = (self.ar.as_const(x), self.ar.as_const(y)) {
                            let o = p.checked_mul(q).is_none();
                            self.ar.konst(1, o as u128)
                        } else {
                            return Err(Stop::Fatal("wide multiplication overflow".into()));
                        }
                    }
                }
            }
            _ => {
                if w > 64 {
                    return Err(Stop::Fatal("wide signed overflow".into()));
                }
                let ww = if bi == Bi::SMulO { 2 * w } else { w + 1 };
                let xe = self.ar.sext(x, ww);
                let ye = self.ar.sext(y, ww);
                let p = match bi {
                    Bi::SAddO => self.ar.add(xe, ye),
                    Bi::SSubO => self.ar.sub(xe, ye),
                    _ => self.ar.mul(xe, ye),
                };
                let q = self.ar.trunc(p, w);
                let q = self.ar.sext(q, ww);
                self.ar.ne(p, q)
            }
        };
        Ok((r, self.from_e(o)))
    }

    fn builtin(&mut self, m: &'static Module, bi: Bi, c: &CallI, f: u32) -> X<()> {
        let a: Vec<V> = c.args.iter().map(|(_, o)| self.opd(o)).collect();
        match bi {
            Bi::None => unreachable!(),
            Bi::Nop | Bi::NoopShim => self.ret(m, c, Some(V::C(0))),
            Bi::Assume0 => self.ret(m, c, None),
            Bi::Print => self.ret(m, c, None),
            Bi::Panic => {
                if self.st.may_panic {
                    // the harness allows a panic here: the path ends
                    self.reached.insert("panicked".into());
                    self.finish_path();
                    return Err(Stop::End);
                }
                let s = self.panic_msg(c, f);
                Err(self.fail_here("panic", s))
            }
            Bi::Abort => Err(self.fail_here("abort", "process abort".into())),
            Bi::TlsAddr | Bi::Expect1 => self.ret(m, c, Some(a[0].clone())),
            Bi::IsConst => self.ret(m, c, Some(V::C(0))),

            // ---- harness interface
            Bi::Sym => {
                let n = self.concretize(&a[1], 64)? as usize;
                let name = args_str(&self.read_conc(&a[2], &a[3])?);
                let es = self.sym_bytes(&name, n);
                self.write_es(&a[0], &es)?;
                self.ret(m, c, None)
            }
            Bi::Choose => {
                let n = self.concretize(&a[0], 32)?;
                let name = args_str(&self.read_conc(&a[1], &a[2])?);
                // one variable, forked over all n values
                let idx = self.st.inputs.len() as u32;
                let es: Vec<E> = (0..4).map(|i| self.named_var(name.clone(), 8, idx, i)).collect();
                let mut e = es[0];
                for i in 1..4 {
                    e = self.ar.concat(es[i], e);
                }
                let ne = self.ar.konst(32, n);
                let lim = self.ar.ult(e, ne);
                if !self.st.pc.contains(&lim) && self.ar.as_const(lim).is_none() {
                    match self.sat(lim)? {
                        Some((mm, ok)) => {
                            self.st.model = mm;
                            self.st.model_ok = ok;
                            self.add_constraint(lim);
                        }
                        None => return Err(Stop::End),
                    }
                }
                let v = self.concretize(&V::S(e), 32)?;
                self.st.inputs.push((name, es));
                self.ret(m, c, Some(V::C(v)))
            }
            Bi::Shard => {
                let n = self.concretize(&a[0], 32)? as u32;
                if self.nshards.is_none() {
                    self.nshards = Some(n);
                    if let Some(f) = &self.on_shards {
                        f(n);
                    }
                }
                let v = self.shard;
                let es: Vec<E> = (0..4).map(|i| self.ar.konst(8, (v >> (8 * i)) as u128 & 0xff)).collect();
                self.st.inputs.push(("shard".into(), es));
                self.ret(m, c, Some(V::C(v as u128)))
            }
            Bi::Conc => {
                let v = self.concretize(&a[0], 64)?;
                self.ret(m, c, Some(V::C(v)))
            }
            Bi::Assume => {
                let e = self.to_e(&a[0], 1);
                match self.sat(e)? {
                    Some((mm, ok)) => {
                        self.st.model = mm;
                        self.st.model_ok = ok;
                        self.add_constraint(e);
                        self.ret(m, c, None)
                    }
                    None => {
                        self.stats.killed += 1;
                        Err(Stop::End)
                    }
                }
            }
            Bi::Assert => {
                let e = self.to_e(&a[0], 1);
                self.st.asserts += 1;
                self.stats.asserts += 1;
                if self.ar.as_const(e) == Some(1) {
                    self.stats.asserts_simplified += 1;
                    return self.ret(m, c, None);
                }
                let msg = args_str(&self.read_conc(&a[1], &a[2])?);
                self.stats.assert_queries += 1;
                let ne = self.ar.not(e);
                if let Some((mm, ok)) = self.sat(ne)? {
                    self.violation("assert", msg, mm, ok);
                    match self.sat(e)? {
                        Some((mm, ok)) => {
                            self.st.model = mm;
                            self.st.model_ok = ok;
                            self.add_constraint(e);
                        }
                        None => {
                            self.stats.paths += 1;
                            return Err(Stop::End);
                        }
                    }
                }
                self.ret(m, c, None)
            }
            Bi::Reach => {
                let msg = args_str(&self.read_conc(&a[0], &a[1])?);
                self.reached.insert(msg);
                self.ret(m, c, None)
            }
            Bi::Expect => {
                let msg = args_str(&self.read_conc(&a[0], &a[1])?);
                self.expected.insert(msg);
                self.ret(m, c, None)
            }
            Bi::Observe => {
                let n = self.concretize(&a[3], 64)?;
                let lab = args_str(&self.read_conc(&a[0], &a[1])?);
                let es = self.read_es(&a[2], n as u64)?;
                self.st.obs.push((lab, es));
                self.ret(m, c, None)
            }
            Bi::Md5 | Bi::Md4 => {
                let mut args = self.read_es(&a[0], 16)?;
                args.extend(self.read_es(&a[1], 64)?);
                let name = if bi == Bi::Md5 { UfName::Md5 } else { UfName::Md4 };
                let e = self.uf(name, args, 128);
                let out: Vec<E> = (0..16).map(|i| self.ar.extract(e, 8 * i, 8)).collect();
                self.write_es(&a[0], &out)?;
                self.ret(m, c, None)
            }
            Bi::Des => {
                // key parity bits do not take part in DES
                let mut args = Vec::new();
                for k in self.read_es(&a[0], 8)? {
                    let mk = self.ar.konst(8, 0xfe);
                    args.push(self.ar.and(k, mk));
                }
                args.extend(self.read_es(&a[1], 8)?);
                let e = self.uf(UfName::Des, args, 64);
                let out: Vec<E> = (0..8).map(|i| self.ar.extract(e, 8 * i, 8)).collect();
                self.write_es(&a[2], &out)?;
                self.ret(m, c, None)
            }
            Bi::Rc4 => {
                // (key, keylen, chunk, out16)
                let kl = self.concretize(&a[1], 64)? as u64;
                let ch = self.concretize(&a[2], 64)?;
                let mut args = self.read_es(&a[0], kl)?;
                args.push(self.ar.konst(8, ch));
                let e = self.uf(UfName::Rc4, args, 128);
                let out: Vec<E> = (0..16).map(|i| self.ar.extract(e, 8 * i, 8)).collect();
                self.write_es(&a[3], &out)?;
                self.ret(m, c, None)
            }
            Bi::Env => {
                // (name, nlen, val, vlen, present)
                let name = self.read_conc(&a[0], &a[1])?;
                let present = self.concretize(&a[4], 1)?;
                let v = if present == 1 {
                    let n = self.concretize(&a[3], 64)? as u64;
                    let cells = self.read_cells(&a[2], n)?;
                    let p = self.st.mem.alloc(n + 1, 0, false);
                    self.write_cells((p >> 32) as u32, 0, &cells)?;
                    Some(p)
                } else {
                    None
                };
                self.st.env.push((name, v));
                self.ret(m, c, None)
            }
            Bi::Host => {
                // (mode, ptr, len): 0 content, 1 read error, otherwise errno at open
                let mode = self.concretize(&a[0], 32)? as u32;
                let n = self.concretize(&a[2], 64)? as u64;
                let cells = self.read_cells(&a[1], n)?;
                self.st.host = (mode, cells);
                self.ret(m, c, None)
            }

            Bi::MayPanic => {
                self.st.may_panic = self.concretize(&a[0], 1)? != 0;
                self.ret(m, c, None)
            }
            Bi::Clock => {
                // (seconds, nanoseconds): what the wall clock says from now on
                let sec = self.to_e(&a[0], 64);
                let ns = self.to_e(&a[1], 32);
                self.st.clock = Some((sec, ns));
                self.ret(m, c, None)
            }

            // ---- allocation
            Bi::Alloc | Bi::AllocZ => {
                let n = self.concretize(&a[0], 64)? as u64;
                if n > 64 << 20 {
                    return Err(self.give_up(format!("allocation of {} bytes", n)));
                }
                let p = self.st.mem.alloc(n, if bi == Bi::AllocZ { 0 } else { UNINIT }, true);
                self.ret(m, c, Some(V::C(p as u128)))
            }
            Bi::Calloc => {
                let n = self.concretize(&a[0], 64)? as u64;
                let k = self.concretize(&a[1], 64)? as u64;
                if n.saturating_mul(k) > 64 << 20 {
                    return Err(self.give_up(format!("allocation of {} bytes", n.saturating_mul(k))));
                }
                let p = self.st.mem.alloc(n * k, 0, true);
                self.ret(m, c, Some(V::C(p as u128)))
            }
            Bi::Free if matches!(a[0], V::C(0)) => self.ret(m, c, None),
            // the text of a system error; natively it is longer
            Bi::Strerror => {
                let (id, off) = self.store_addr(&a[1], 6)?;
                let cells: Vec<u32> = b"error\0".iter().map(|b| *b as u32).collect();
                self.write_cells(id, off, &cells)?;
                self.ret(m, c, Some(V::C(0)))
            }
            Bi::Dealloc | Bi::Free => {
                let p = self.concretize(&a[0], 64)? as u64;
                let id = (p >> 32) as u32;
                match self.st.mem.get(id) {
                    Some(o) if o.heap && p == obj_addr(id) => self.st.mem.free_id(id),
                    _ => return Err(self.fail_here("memory", "invalid free".into())),
                }
                self.ret(m, c, None)
            }
            Bi::Realloc => {
                let p = self.concretize(&a[0], 64)? as u64;
                let n = self.concretize(&a[3], 64)? as u64;
                let id = (p >> 32) as u32;
                let old = match self.st.mem.get(id) {
                    Some(o) if o.heap && p == obj_addr(id) => o.clone(),
                    _ => return Err(self.fail_here("memory", "invalid realloc".into())),
                };
                if n > 64 << 20 {
                    return Err(self.give_up(format!("allocation of {} bytes", n)));
                }
                let q = self.st.mem.alloc(n, UNINIT, true);
                let k = old.size.min(n) as usize;
                self.write_cells((q >> 32) as u32, 0, &old.cells[..k])?;
                self.st.mem.free_id(id);
                self.ret(m, c, Some(V::C(q as u128)))
            }

            // ---- memory
            Bi::Memcpy => {
                let n = self.concretize(&a[2], 64)? as u64;
                if n > 0 {
                    let cells = self.read_cells(&a[1], n)?;
                    let (id, off) = self.store_addr(&a[0], n)?;
                    self.write_cells(id, off, &cells)?;
                }
                self.ret(m, c, Some(a[0].clone()))
            }
            Bi::Memset => {
                let n = self.concretize(&a[2], 64)? as u64;
                if n > 0 {
                    let (id, off) = self.store_addr(&a[0], n)?;
                    let w = self.w_of(m, c, 1);
                    let cell = match &a[1] {
                        V::C(x) => *x as u32 & 0xff,
                        V::S(e) => {
                            let b = if w > 8 { self.ar.trunc(*e, 8) } else { *e };
                            self.e_cell(b)
                        }
                        _ => UNINIT,
                    };
                    self.write_cells(id, off, &vec![cell; n as usize])?;
                }
                self.ret(m, c, Some(a[0].clone()))
            }
            Bi::Bcmp | Bi::Memcmp => {
                let n = self.concretize(&a[2], 64)? as u64;
                let x = self.read_es(&a[0], n)?;
                let y = self.read_es(&a[1], n)?;
                let zero = self.ar.konst(32, 0);
                let mut r = zero;
                if bi == Bi::Bcmp {
                    let mut all = self.ar.t();
                    for i in 0..x.len() {
                        let q = self.ar.eq(x[i], y[i]);
                        all = self.ar.and(all, q);
                        if all == self.ar.f() {
                            break;
                        }
                    }
                    let one = self.ar.konst(32, 1);
                    r = self.ar.ite(all, zero, one);
                } else {
                    for i in (0..x.len()).rev() {
                        let q = self.ar.eq(x[i], y[i]);
                        let l = self.ar.ult(x[i], y[i]);
                        let m1 = self.ar.konst(32, u128::MAX);
                        let p1 = self.ar.konst(32, 1);
                        let d = self.ar.ite(l, m1, p1);
                        r = self.ar.ite(q, r, d);
                    }
                }
                let v = self.from_e(r);
                self.ret(m, c, Some(v))
            }
            Bi::Strlen => {
                let p = self.concretize(&a[0], 64)? as u64;
                let mut n = 0u64;
                loop {
                    let cell = self.read_cells(&V::C((p + n) as u128), 1)?[0];
                    let e = self.cell_e(cell);
                    let z = self.ar.konst(8, 0);
                    let q = self.ar.eq(e, z);
                    if self.branch(q)? {
                        break;
                    }
                    n += 1;
                }
                self.ret(m, c, Some(V::C(n as u128)))
            }

            Bi::Memchr | Bi::Memrchr => {
                let p = self.concretize(&a[0], 64)? as u64;
                let x = self.to_e(&a[1], 32);
                let x = self.ar.extract(x, 0, 8);
                let n = self.concretize(&a[2], 64)? as u64;
                let mut r = 0u64;
                for i in 0..n {
                    let at = p + if bi == Bi::Memchr { i } else { n - 1 - i };
                    let cell = self.read_cells(&V::C(at as u128), 1)?[0];
                    let e = self.cell_e(cell);
                    let q = self.ar.eq(e, x);
                    if self.branch(q)? {
                        r = at;
                        break;
                    }
                }
                self.ret(m, c, Some(V::C(r as u128)))
            }

            // ---- libc
            Bi::Getenv => {
                let p = self.concretize(&a[0], 64)? as u64;
                let mut name = Vec::new();
                loop {
                    match self.peek(p + name.len() as u64, 1) {
                        Some(b) if b[0] == 0 => break,
                        Some(b) => name.push(b[0]),
                        None => return Err(Stop::Fatal("getenv name".into())),
                    }
                }
                let v = self.st.env.iter().rev().find(|(n, _)| *n == name).and_then(|x| x.1).unwrap_or(0);
                self.ret(m, c, Some(V::C(v as u128)))
            }
            Bi::Open => {
                // openat has the directory first
                let k = if m.funcs[f as usize].name.starts_with("openat") { 1 } else { 0 };
                let name = self.c_string(&a[k])?;
                let mode = self.st.host.0;
                if name == b"/etc/hostname" && mode <= 1 {
                    self.st.fdpos = 0;
                    return self.ret(m, c, Some(V::C(77)));
                }
                let e = if name == b"/etc/hostname" { mode } else { 2 };
                self.fail_with(m, c, e)
            }
            Bi::Read => {
                self.known_fd(&a[0])?;
                if self.st.host.0 == 1 {
                    return self.fail_with(m, c, 21); // EISDIR
                }
                let n = self.concretize(&a[2], 64)? as u64;
                let k = if a.len() > 3 {
                    let at = self.concretize(&a[3], 64)? as u64;
                    self.read_host(at, &a[1], n)?
                } else {
                    let k = self.read_host(self.st.fdpos, &a[1], n)?;
                    self.st.fdpos += k;
                    k
                };
                self.ret(m, c, Some(V::C(k as u128)))
            }
            Bi::Readv => {
                self.known_fd(&a[0])?;
                if self.st.host.0 == 1 {
                    return self.fail_with(m, c, 21);
                }
                let n = self.concretize(&a[2], 32)? as u64;
                let mut got = 0;
                for (p, len) in self.iovecs(&a[1], n)? {
                    let k = self.read_host(self.st.fdpos, &V::C(p as u128), len)?;
                    self.st.fdpos += k;
                    got += k;
                }
                self.ret(m, c, Some(V::C(got as u128)))
            }
            // standard output and error
            Bi::Write => {
                let fd = self.concretize(&a[0], 32)?;
                if fd != 1 && fd != 2 {
                    return Err(Stop::Fatal("write to unknown file".into()));
                }
                let n = self.concretize(&a[2], 64)?;
                self.ret(m, c, Some(V::C(n)))
            }
            Bi::Writev => {
                let fd = self.concretize(&a[0], 32)?;
                if fd != 1 && fd != 2 {
                    return Err(Stop::Fatal("write to unknown file".into()));
                }
                let n = self.concretize(&a[2], 32)? as u64;
                let k: u64 = self.iovecs(&a[1], n)?.iter().map(|x| x.1).sum();
                self.ret(m, c, Some(V::C(k as u128)))
            }
            Bi::Close | Bi::Zero => self.ret(m, c, Some(V::C(0))),
            // only statx, which std does without when the kernel lacks it, and getrandom for its hash maps
            Bi::NoSyscall => {
                let w = m.bits(c.ret);
                if w == 64 && matches!(a[0], V::C(318)) {
                    let n = self.concretize(&a[2], 64)? as u64;
                    self.fill_fixed(&a[1], n)?;
                    return self.ret(m, c, Some(V::C(n as u128)));
                }
                if w == 64 && !matches!(a[0], V::C(332)) {
                    return Err(Stop::Fatal("system call".into()));
                }
                self.fail_with(m, c, 38)
            }
            Bi::Getrandom => {
                let n = self.concretize(&a[1], 64)? as u64;
                self.fill_fixed(&a[0], n)?;
                self.ret(m, c, Some(V::C(n as u128)))
            }
            Bi::Fp(op) => {
                let w = self.w_of(m, c, 0);
                let x = self.concretize(&a[0], w)?;
                let (w2, to_f) = (m.bits(c.ret), matches!(m.ty(c.ret), Ty::Float(_)));
                match fp(op, true, w, to_f, w2, &[x]) {
                    Some(r) => self.ret(m, c, Some(V::C(r & mask(w2)))),
                    None => Err(Stop::Fatal(format!("unsupported function {}", op))),
                }
            }
            Bi::KeyCreate => {
                self.st.keys.push(V::C(0));
                let n = self.st.keys.len() as u128;
                let p = a[0].clone();
                self.write_errno(&p, n as u32)?;
                self.ret(m, c, Some(V::C(0)))
            }
            Bi::KeyGet | Bi::KeySet => {
                let k = self.concretize(&a[0], 32)? as usize;
                if k == 0 || k > self.st.keys.len() {
                    return Err(Stop::Fatal("unknown thread key".into()));
                }
                let r = if matches!(bi, Bi::KeySet) {
                    self.st.keys[k - 1] = a[1].clone();
                    V::C(0)
                } else {
                    self.st.keys[k - 1].clone()
                };
                self.ret(m, c, Some(r))
            }
            Bi::Getpid => self.ret(m, c, Some(V::C(4242))),
            Bi::Stat => {
                let name = self.c_string(&a[0])?;
                let mode = self.st.host.0;
                if name != b"/etc/hostname" || mode > 1 {
                    return self.fail_with(m, c, if name == b"/etc/hostname" { mode } else { 2 });
                }
                self.write_stat(&a[1])?;
                self.ret(m, c, Some(V::C(0)))
            }
            Bi::Fstat => {
                self.write_stat(&a[1])?;
                self.ret(m, c, Some(V::C(0)))
            }
            Bi::Lseek => {
                self.known_fd(&a[0])?;
                let off = self.concretize(&a[1], 64)? as i64;
                let base = match self.concretize(&a[2], 32)? {
                    0 => 0,
                    1 => self.st.fdpos as i64,
                    2 => self.st.host.1.len() as i64,
                    _ => return Err(Stop::Fatal("lseek".into())),
                };
                if base + off < 0 {
                    return self.fail_with(m, c, 22);
                }
                self.st.fdpos = (base + off) as u64;
                let v = self.st.fdpos;
                self.ret(m, c, Some(V::C(v as u128)))
            }
            Bi::Errno => {
                let v = self.st.errno_addr;
                self.ret(m, c, Some(V::C(v as u128)))
            }
            Bi::ClockGettime => {
                let (sec, ns) = match self.st.clock {
                    Some(x) => x,
                    None => return Err(Stop::Fatal("clock read, but the harness has not set it".into())),
                };
                let ns64 = self.ar.zext(ns, 64);
                let mut out = vec![];
                for i in 0..8 {
                    out.push(self.ar.extract(sec, 8 * i, 8));
                }
                for i in 0..8 {
                    out.push(self.ar.extract(ns64, 8 * i, 8));
                }
                self.write_es(&a[1], &out)?;
                self.ret(m, c, Some(V::C(0)))
            }

            // ---- integer intrinsics
            Bi::UMax | Bi::UMin | Bi::SMax | Bi::SMin => {
                let t = c.args[0].0;
                if let Ty::Vec(n, e) = m.ty(t) {
                    let w = m.bits(*e);
                    let r: Vec<V> = (0..*n as usize).map(|i| self.minmax(bi, w, &elem(&a[0], i), &elem(&a[1], i))).collect();
                    return self.ret(m, c, Some(V::A(Rc::new(r))));
                }
                let w = self.w_of(m, c, 0);
                let v = self.minmax(bi, w, &a[0], &a[1]);
                self.ret(m, c, Some(v))
            }
            Bi::Fshl | Bi::Fshr => {
                let w = self.w_of(m, c, 0);
                let sh = self.concretize(&a[2], w)? as u32 % w;
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                let r = if bi == Bi::Fshl {
                    if sh == 0 {
                        x
                    } else {
                        let h = self.ar.extract(x, 0, w - sh);
                        let l = self.ar.extract(y, w - sh, sh);
                        self.ar.concat(h, l)
                    }
                } else if sh == 0 {
                    y
                } else {
                    let h = self.ar.extract(x, 0, sh);
                    let l = self.ar.extract(y, sh, w - sh);
                    self.ar.concat(h, l)
                };
                let v = self.from_e(r);
                self.ret(m, c, Some(v))
            }
            Bi::Bswap => {
                let w = self.w_of(m, c, 0);
                let x = self.to_e(&a[0], w);
                let mut r = self.ar.extract(x, w - 8, 8);
                for i in 1..w / 8 {
                    let b = self.ar.extract(x, w - 8 - 8 * i, 8);
                    r = self.ar.concat(b, r);
                }
                let v = self.from_e(r);
                self.ret(m, c, Some(v))
            }
            Bi::Bitrev => {
                let w = self.w_of(m, c, 0);
                let x = self.to_e(&a[0], w);
                let mut r = self.ar.extract(x, w - 1, 1);
                for i in 1..w {
                    let b = self.ar.extract(x, w - 1 - i, 1);
                    r = self.ar.concat(b, r);
                }
                let v = self.from_e(r);
                self.ret(m, c, Some(v))
            }
            Bi::Ctpop => {
                let w = self.w_of(m, c, 0);
                let v = match &a[0] {
                    V::C(x) => V::C(x.count_ones() as u128),
                    v => {
                        let x = self.to_e(v, w);
                        let mut r = self.ar.konst(w, 0);
                        for i in 0..w {
                            let b = self.ar.extract(x, i, 1);
                            let b = self.ar.zext(b, w);
                            r = self.ar.add(r, b);
                        }
                        self.from_e(r)
                    }
                };
                self.ret(m, c, Some(v))
            }
            Bi::Ctlz | Bi::Cttz => {
                let w = self.w_of(m, c, 0);
                let v = match &a[0] {
                    V::C(x) => V::C(if bi == Bi::Ctlz {
                        (x.leading_zeros() - (128 - w)) as u128
                    } else {
                        x.trailing_zeros().min(w) as u128
                    }),
                    v => {
                        let x = self.to_e(v, w);
                        let mut r = self.ar.konst(w, w as u128);
                        for k in 0..w {
                            // last assignment wins: the most significant position for ctlz
                            let i = if bi == Bi::Ctlz { k } else { w - 1 - k };
                            let b = self.ar.extract(x, i, 1);
                            let val = if bi == Bi::Ctlz { w - 1 - i } else { i };
                            let kk = self.ar.konst(w, val as u128);
                            r = self.ar.ite(b, kk, r);
                        }
                        self.from_e(r)
                    }
                };
                self.ret(m, c, Some(v))
            }
            Bi::UAddO | Bi::USubO | Bi::UMulO | Bi::SAddO | Bi::SSubO | Bi::SMulO => {
                let w = self.w_of(m, c, 0);
                let (r, o) = self.overflow(w, bi, &a[0], &a[1])?;
                self.ret(m, c, Some(V::A(Rc::new(vec![r, o]))))
            }
            Bi::UAddSat | Bi::USubSat => {
                let w = self.w_of(m, c, 0);
                let (r, o) = self.overflow(w, if bi == Bi::UAddSat { Bi::UAddO } else { Bi::USubO }, &a[0], &a[1])?;
                let lim = V::C(if bi == Bi::UAddSat { mask(w) } else { 0 });
                let v = self.select(w, &o, lim, r);
                self.ret(m, c, Some(v))
            }
            Bi::SAddSat | Bi::SSubSat => {
                let w = self.w_of(m, c, 0);
                let (r, o) = self.overflow(w, if bi == Bi::SAddSat { Bi::SAddO } else { Bi::SSubO }, &a[0], &a[1])?;
                let x = self.to_e(&a[0], w);
                let s = self.ar.extract(x, w - 1, 1);
                let s = self.from_e(s);
                let lim = self.select(w, &s, V::C(1u128 << (w - 1)), V::C(mask(w) >> 1));
                let v = self.select(w, &o, lim, r);
                self.ret(m, c, Some(v))
            }
            Bi::UCmp | Bi::SCmp => {
                let w = self.w_of(m, c, 0);
                let rw = m.bits(c.ret);
                let lt = self.icmp(if bi == Bi::UCmp { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
                let eq = self.icmp(Pred::Eq, w, &a[0], &a[1]);
                let x = self.select(rw, &eq, V::C(0), V::C(1));
                let v = self.select(rw, &lt, V::C(mask(rw)), x);
                self.ret(m, c, Some(v))
            }
            Bi::Abs => {
                let w = self.w_of(m, c, 0);
                let z = V::C(0);
                let n = self.binop(BinOp::Sub, w, &z, &a[0])?;
                let neg = self.icmp(Pred::Slt, w, &a[0], &z);
                let v = self.select(w, &neg, n, a[0].clone());
                self.ret(m, c, Some(v))
            }
            Bi::ReduceAdd | Bi::ReduceOr | Bi::ReduceAnd => {
                let t = c.args[0].0;
                let (n, w) = match m.ty(t) {
                    Ty::Vec(n, e) => (*n as usize, m.bits(*e)),
                    _ => return Err(Stop::Fatal("reduce".into())),
                };
                let mut r = elem(&a[0], 0);
                for i in 1..n {
                    let op = match bi {
                        Bi::ReduceAdd => BinOp::Add,
                        Bi::ReduceOr => BinOp::Or,
                        _ => BinOp::And,
                    };
                    r = self.binop(op, w, &r, &elem(&a[0], i))?;
                }
                self.ret(m, c, Some(r))
            }
            Bi::PtrMask => {
                let v = self.binop(BinOp::And, 64, &a[0], &a[1])?;
                self.ret(m, c, Some(v))
            }
        }
    }

    fn uf(&mut self, f: UfName, args: Vec<E>, w: u32) -> E {
        // constant arguments: compute
        let cs: Option<Vec<u8>> = args.iter().map(|&a| self.ar.as_const(a).map(|c| c as u8)).collect();
        if let Some(cs) = cs {
            let v = crate::crypto::uf(f, &cs);
            return self.ar.konst(w, v);
        }
        self.ar.uf(f, args, w)
    }

    fn minmax(&mut self, bi: Bi, w: u32, a: &V, b: &V) -> V {
        let p = match bi {
            Bi::UMax => Pred::Ugt,
            Bi::UMin => Pred::Ult,
            Bi::SMax => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.icmp(p, w, a, b);
        self.select(w, &c, a.clone(), b.clone())
    }

    fn fail_with(&mut self, m: &'static Module, c: &CallI, e: u32) -> X<()> {
        let p = V::C(self.st.errno_addr as u128);
        self.write_errno(&p, e)?;
        self.ret(m, c, Some(V::C(mask(m.bits(c.ret)))))
    }
    fn c_string(&mut self, a: &V) -> X<Vec<u8>> {
        let p = self.concretize(a, 64)? as u64;
        let mut name = Vec::new();
        loop {
            match self.peek(p + name.len() as u64, 1) {
                Some(b) if b[0] == 0 => return Ok(name),
                Some(b) => name.push(b[0]),
                None => return Err(Stop::Fatal("text given to the C library".into())),
            }
        }
    }
    fn known_fd(&mut self, a: &V) -> X<()> {
        match self.concretize(a, 32)? {
            77 => Ok(()),
            _ => Err(Stop::Fatal("use of an unknown file".into())),
        }
    }
    fn read_host(&mut self, at: u64, to: &V, n: u64) -> X<u64> {
        let at = (at as usize).min(self.st.host.1.len());
        let k = (self.st.host.1.len() - at).min(n as usize);
        if k > 0 {
            let cells = self.st.host.1[at..at + k].to_vec();
            let (id, off) = self.store_addr(to, k as u64)?;
            self.write_cells(id, off, &cells)?;
        }
        Ok(k as u64)
    }
    fn iovecs(&mut self, a: &V, n: u64) -> X<Vec<(u64, u64)>> {
        let p = self.concretize(a, 64)? as u64;
        let word = |b: Vec<u8>| b.iter().rev().fold(0u64, |x, y| x << 8 | *y as u64);
        let mut v = vec![];
        for i in 0..n {
            match (self.peek(p + 16 * i, 8), self.peek(p + 16 * i + 8, 8)) {
                (Some(x), Some(y)) => v.push((word(x), word(y))),
                _ => return Err(Stop::Fatal("iovec".into())),
            }
        }
        Ok(v)
    }
    fn write_stat(&mut self, to: &V) -> X<()> {
        // struct stat: st_mode at 24, st_size at 48
        let (id, off) = self.store_addr(to, 144)?;
        let mut cells = vec![0u32; 144];
        let (mode, size) = if self.st.host.0 == 1 { (0o040755u32, 4096u64) } else { (0o100644, self.st.host.1.len() as u64) };
        for i in 0..4 {
            cells[24 + i] = (mode >> (8 * i)) & 0xff;
        }
        for i in 0..8 {
            cells[48 + i] = (size >> (8 * i)) as u32 & 0xff;
        }
        self.write_cells(id, off, &cells)
    }
    fn fill_fixed(&mut self, to: &V, n: u64) -> X<()> {
        let (id, off) = self.store_addr(to, n)?;
        self.write_cells(id, off, &vec![0x5a; n as usize])
    }
    fn write_errno(&mut self, p: &V, e: u32) -> X<()> {
        let (id, off) = self.store_addr(p, 4)?;
        let cells: Vec<u32> = (0..4).map(|i| (e >> (8 * i)) & 0xff).collect();
        self.write_cells(id, off, &cells)
    }
}

/// A floating-point operation on concrete values.
fn fp(op: &str, from_f: bool, w: u32, to_f: bool, w2: u32, x: &[u128]) -> Option<u128> {
    let f = |b: u128| if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
    let out = |v: f64| if w2 == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
    let sx = |b: u128| crate::expr::sext_val(b, w);
    Some(match op {
        "uitofp" if w2 == 32 => (x[0] as f32).to_bits() as u128,
        "uitofp" => (x[0] as f64).to_bits() as u128,
        "sitofp" if w2 == 32 => (sx(x[0]) as f32).to_bits() as u128,
        "sitofp" => (sx(x[0]) as f64).to_bits() as u128,
        "fpext" | "fptrunc" => out(f(x[0])),
        "fneg" => out(-f(x[0])),
        // in f32, one operation on f64 rounded once more is exact for these
        "fadd" => out(f(x[0]) + f(x[1])),
        "fsub" => out(f(x[0]) - f(x[1])),
        "fmul" => out(f(x[0]) * f(x[1])),
        "fdiv" => out(f(x[0]) / f(x[1])),
        "frem" => out(f(x[0]) % f(x[1])),
        "fabs" => out(f(x[0]).abs()),
        "floor" => out(f(x[0]).floor()),
        "ceil" => out(f(x[0]).ceil()),
        "trunc" => out(f(x[0]).trunc()),
        "round" => out(f(x[0]).round()),
        "sqrt" => out(f(x[0]).sqrt()),
        "fptoui" => {
            let v = f(x[0]);
            if v.is_nan() || v <= 0.0 {
                0
            } else {
                (v as u128).min(mask(w2))
            }
        }
        "fptosi" => {
            let v = f(x[0]) as i128;
            let top = (mask(w2) >> 1) as i128;
            v.clamp(-top - 1, top) as u128
        }
        _ if from_f && !to_f => {
            let (a, b) = (f(*x.first()?), f(*x.get(1)?));
            let un = a.is_nan() || b.is_nan();
            (match op {
                "false" => false,
                "true" => true,
                "oeq" => a == b,
                "ueq" => un || a == b,
                "one" => !un && a != b,
                "une" => a != b,
                "olt" => a < b,
                "ult" => un || a < b,
                "ole" => a <= b,
                "ule" => un || a <= b,
                "ogt" => a > b,
                "ugt" => un || a > b,
                "oge" => a >= b,
                "uge" => un || a >= b,
                "ord" => !un,
                "uno" => un,
                _ => return None,
            }) as u128
        }
        _ => return None,
    })
}

fn cval(c: &C) -> V {
    match c {
        C::I(v) => V::C(*v),
        C::Undef => V::U,
        C::Agg(v) => V::A(Rc::new(v.iter().map(cval).collect())),
    }
}

fn elem(v: &V, i: usize) -> V {
    match v {
        V::A(x) => x[i].clone(),
        _ => V::U,
    }
}

fn insert(m: &Module, t: TyId, agg: V, v: V, idx: &[u32]) -> V {
    if idx.is_empty() {
        return v;
    }
    let (n, et) = match m.ty(t) {
        Ty::Struct(_, fs) => (fs.len(), fs[idx[0] as usize]),
        Ty::Array(n, e) => (*n as usize, *e),
        Ty::Vec(n, e) => (*n as usize, *e),
        _ => panic!("insertvalue"),
    };
    let mut xs = match agg {
        V::A(x) => (*x).clone(),
        _ => vec![V::U; n],
    };
    let old = xs[idx[0] as usize].clone();
    xs[idx[0] as usize] = insert(m, et, old, v, &idx[1..]);
    V::A(Rc::new(xs))
}

/// Rough demangling of v0 symbol names: the path segments.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = Vec::new();
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let len: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 0 && j + len <= b.len() && n.is_char_boundary(j) && n.is_char_boundary(j + len) {
                let seg = &n[j..j + len];
                if seg.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !seg.as_bytes()[0].is_ascii_digit() {
                    out.push(seg.to_string());
                    i = j + len;
                    continue;
                }
            }
        } else {
            // disambiguators: Cs<base62>_
            if b[i] == b's' {
                if let Some(k) = n[i..].find('_') {
                    if k < 14 && n[i + 1..i + k].bytes().all(|c| c.is_ascii_alphanumeric()) {
                        i += k + 1;
                        continue;
                    }
                }
            }
            i += 1;
        }
    }
    out.join("::")
}
