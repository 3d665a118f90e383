//! symex: a symbolic executor for the LLVM IR of the real crate.
//!
//! `symex --ll FILE --out OUT.json [--jobs N] [--time-limit S] [--seed N] HARNESS...`

mod crypto;
mod exec;
mod expr;
mod ll;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::AtomicU64;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct HRes {
    shards: u32,
    done: u32,
    running: u64,
    st: Stats,
    viol: Vec<(u32, Violation)>,
    cases: Vec<(u32, Case)>,
    reached: BTreeSet<String>,
    expected: BTreeSet<String>,
    errors: Vec<String>,
    funcs: BTreeSet<String>,
    smt: Vec<String>,
}

struct Shared {
    queue: VecDeque<(usize, u32)>,
    running: usize,
    res: Vec<HRes>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn pairs(v: &[(String, Vec<u8>)]) -> String {
    let x: Vec<String> = v.iter().map(|(n, b)| format!("[{},\"{}\"]", js(n), hex(b))).collect();
    format!("[{}]", x.join(","))
}

fn list<'a>(v: impl Iterator<Item = &'a String>) -> String {
    let x: Vec<String> = v.map(|s| js(s)).collect();
    format!("[{}]", x.join(","))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut llf, mut out, mut jobs, mut limit, mut seed) = (None, None, 8usize, 800u64, 0u64);
    let mut verbose = false;
    let mut keep_going = false;
    let mut smt_n = 0usize;
    let mut max_cases = 24usize;
    let mut hs: Vec<String> = vec![];
    while let Some(a) = args.next() {
        match a.as_str() {
            "--ll" => llf = args.next(),
            "--out" => out = args.next(),
            "--jobs" => jobs = args.next().unwrap().parse().unwrap(),
            "--time-limit" => limit = args.next().unwrap().parse().unwrap(),
            "--seed" => seed = args.next().unwrap().parse().unwrap(),
            "--smt" => smt_n = args.next().unwrap().parse().unwrap(),
            "--cases" => max_cases = args.next().unwrap().parse().unwrap(),
            "--keep-going" => keep_going = true,
            "--verbose" => verbose = true,
            _ => hs.push(a),
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(llf.expect("--ll")).expect("read .ll");
    let m = match ll::parse(&src) {
        Ok(m) => &*Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("symex: cannot parse IR: {}", e);
            std::process::exit(2);
        }
    };
    drop(src);
    let bi: &'static Vec<Bi> = Box::leak(Box::new(m.funcs.iter().map(classify).collect()));
    let parse_s = t0.elapsed().as_secs_f64();
    if hs.is_empty() {
        for f in &m.funcs {
            if f.name.starts_with("h_") {
                println!("{}", f.name);
            }
        }
        return;
    }
    let deadline = t0 + Duration::from_secs(limit);
    let sh = Arc::new((
        Mutex::new(Shared {
            queue: (0..hs.len()).map(|i| (i, 0)).collect(),
            running: 0,
            res: hs.iter().map(|_| HRes { shards: 1, ..Default::default() }).collect(),
        }),
        Condvar::new(),
    ));
    let hs = Arc::new(hs);
    // one job that explodes must not starve the others
    let slice = Duration::from_secs((limit / 3).max(20));
    // set, some time after the first counterexample
    let stop = Arc::new(AtomicU64::new(u64::MAX));
    let mut ths = vec![];
    for _ in 0..jobs {
        let (sh, hs, stop) = (sh.clone(), hs.clone(), stop.clone());
        ths.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let (mx, cv) = &*sh;
                    loop {
                        let (hi, shard) = {
                            let mut g = mx.lock().unwrap();
                            loop {
                                // the harness that has had the least time goes first
                                let next = (0..g.queue.len()).min_by_key(|&i| {
                                    let h = &g.res[g.queue[i].0];
                                    (h.running * 1000 + (h.st.wall_s * 100.0) as u64, i)
                                });
                                if let Some(i) = next {
                                    let j = g.queue.remove(i).unwrap();
                                    g.running += 1;
                                    g.res[j.0].running += 1;
                                    break j;
                                }
                                if g.running == 0 {
                                    cv.notify_all();
                                    return;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let mut ex = Exec::new(m, bi, shard, deadline.min(Instant::now() + slice));
                        if !keep_going {
                            ex.stop = Some(stop.clone());
                        }
                        ex.verbose = verbose;
                        ex.max_cases = max_cases;
                        ex.case_seed = seed;
                        ex.smt_keep = smt_n;
                        let notify = {
                            let sh = sh.clone();
                            move |n: u32| {
                                let (mx, cv) = &*sh;
                                let mut g = mx.lock().unwrap();
                                g.res[hi].shards = n;
                                for k in 1..n {
                                    g.queue.push_back((hi, k));
                                }
                                cv.notify_all();
                            }
                        };
                        if shard == 0 {
                            ex.on_shards = Some(Box::new(notify));
                        }
                        let r = ex.run(&hs[hi]);
                        let mut g = mx.lock().unwrap();
                        g.running -= 1;
                        let h = &mut g.res[hi];
                        h.running -= 1;
                        h.done += 1;
                        let s = &ex.stats;
                        h.st.paths += s.paths;
                        h.st.killed += s.killed;
                        h.st.forks += s.forks;
                        h.st.insts += s.insts;
                        h.st.queries += s.queries;
                        h.st.query_cached += s.query_cached;
                        h.st.sat += s.sat;
                        h.st.unsat += s.unsat;
                        h.st.asserts += s.asserts;
                        h.st.asserts_simplified += s.asserts_simplified;
                        h.st.assert_queries += s.assert_queries;
                        h.st.solver_s += s.solver_s;
                        h.st.wall_s += s.wall_s;
                        h.st.max_depth = h.st.max_depth.max(s.max_depth);
                        if let Err(e) = r {
                            h.errors.push(format!("shard {}: {}", shard, e));
                        }
                        if s.undecided > 0 {
                            h.errors.push(format!("shard {}: undecided: {} questions left open", shard, s.undecided));
                        }
                        for v in ex.viol.drain(..) {
                            h.viol.push((shard, v));
                        }
                        for c in ex.cases.drain(..) {
                            h.cases.push((shard, c));
                        }
                        h.reached.extend(ex.reached.drain());
                        h.expected.extend(ex.expected.drain());
                        for (i, u) in ex.funcs_used.iter().enumerate() {
                            if *u && m.funcs[i].name.contains("http_ntlm") {
                                h.funcs.insert(short(&m.funcs[i].name));
                            }
                        }
                        h.smt.append(&mut ex.smt_kept);
                        if verbose {
                            eprintln!(
                                "{} shard {}: {} paths {} killed {} insts {} queries ({:.1}s solver) {:.1}s",
                                hs[hi], shard, s.paths, s.killed, s.insts, s.queries, s.solver_s, s.wall_s
                            );
                        }
                        cv.notify_all();
                    }
                })
                .unwrap(),
        );
    }
    let mut crashed = false;
    for t in ths {
        crashed |= t.join().is_err();
    }
    let g = sh.0.lock().unwrap();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"parse_s\":{:.2},\"wall_s\":{:.2},\"ir_functions\":{},\"ir_instructions\":{},\"solver\":{},\"crashed\":{},\"harnesses\":{{",
        parse_s,
        t0.elapsed().as_secs_f64(),
        m.funcs.len(),
        m.insts,
        js(&z3::version()),
        crashed
    );
    let mut first = true;
    let mut hm: BTreeMap<&String, &HRes> = BTreeMap::new();
    for (i, h) in g.res.iter().enumerate() {
        hm.insert(&hs[i], h);
    }
    for (n, h) in hm {
        if !first {
            o.push(',');
        }
        first = false;
        let missing: BTreeSet<String> = h.expected.difference(&h.reached).cloned().collect();
        let viol: Vec<String> = h
            .viol
            .iter()
            .map(|(s, v)| {
                format!(
                    "{{\"shard\":{},\"kind\":{},\"msg\":{},\"model_ok\":{},\"inputs\":{},\"trace\":{}}}",
                    s,
                    js(&v.kind),
                    js(&v.msg),
                    v.model_ok,
                    pairs(&v.inputs),
                    list(v.trace.iter())
                )
            })
            .collect();
        let cases: Vec<String> = h
            .cases
            .iter()
            .map(|(s, c)| format!("{{\"shard\":{},\"inputs\":{},\"obs\":{}}}", s, pairs(&c.inputs), pairs(&c.obs)))
            .collect();
        let s = &h.st;
        let _ = write!(
            o,
            "{}:{{\"shards\":{},\"shards_done\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"insts\":{},\"queries\":{},\"query_cached\":{},\"sat\":{},\"unsat\":{},\"asserts\":{},\"asserts_simplified\":{},\"assert_queries\":{},\"solver_s\":{:.3},\"cpu_s\":{:.3},\"max_depth\":{},\"reached\":{},\"expected\":{},\"missing\":{},\"errors\":{},\"functions\":{},\"violations\":[{}],\"cases\":[{}],\"smt\":{}}}",
            js(n),
            h.shards,
            h.done,
            s.paths,
            s.killed,
            s.forks,
            s.insts,
            s.queries,
            s.query_cached,
            s.sat,
            s.unsat,
            s.asserts,
            s.asserts_simplified,
            s.assert_queries,
            s.solver_s,
            s.wall_s,
            s.max_depth,
            list(h.reached.iter()),
            list(h.expected.iter()),
            list(missing.iter()),
            list(h.errors.iter()),
            list(h.funcs.iter()),
            viol.join(","),
            cases.join(","),
            list(h.smt.iter()),
        );
    }
    o.push_str("}}\n");
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{}", o),
    }
    if crashed {
        std::process::exit(2);
    }
}
