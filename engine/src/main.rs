//! symex: bounded symbolic execution of LLVM IR with z3.
//!
//! symex --entry h_foo --out FILE [--max-instr N] [--time SECS] [--workers N] MODULE.ll...

mod exec;
mod expr;
mod hooks;
mod ir;
mod mem;
mod pc;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
}

#[repr(C)]
struct Shared {
    active: std::sync::atomic::AtomicI32,
    stop: std::sync::atomic::AtomicI32,
    seq: std::sync::atomic::AtomicI32,
    paths: std::sync::atomic::AtomicU64,
}

fn shared() -> &'static Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    }
}

use std::sync::atomic::Ordering::SeqCst;

struct Opt {
    entry: String,
    out: String,
    max_instr: u64,
    time: u64,
    workers: i32,
    mods: Vec<String>,
    trace: bool,
    known: Vec<String>,
    samples: usize,
    sample_every: u64,
    cov: String,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn inputs_json(v: &[(u32, u128)]) -> String {
    let x: Vec<String> = v.iter().map(|(w, x)| format!("[{w},{x}]")).collect();
    format!("[{}]", x.join(","))
}
fn viol_json(v: &Violation) -> String {
    let t: Vec<String> = v.trace.iter().map(|x| esc(x)).collect();
    format!(
        "{{\"msg\":{},\"budget\":{},\"inputs\":{},\"trace\":[{}]}}",
        esc(&v.msg),
        v.budget,
        inputs_json(&v.inputs),
        t.join(",")
    )
}

/// One JSON object per worker process; the runner adds them up.
fn report(x: &Exec, left: usize, opt: &Opt) -> String {
    let s = &x.stats;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"pid\":{},\"paths\":{},\"killed\":{},\"instrs\":{},\"forks\":{},\"asserts\":{},\"asserts_const\":{},\"max_depth\":{},\"max_path_instrs\":{},\"max_inputs\":{},\"max_objs\":{},\"left\":{},",
        unsafe { getpid() },
        s.paths, s.killed, s.instrs, s.forks, s.asserts, s.asserts_const, s.max_depth, s.max_path_instrs, s.max_inputs, s.max_objs, left
    );
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_ms\":{},\"longest_ms\":{},\"assert_queries\":{},\"assert_ms\":{},\"branch_queries\":{},\"path_queries\":{},\"presolved\":{},\"model_hits\":{},\"cache_hits\":{},\"solver\":{},\"ms\":{},",
        x.s.z3.queries, x.s.z3.sat, x.s.z3.unsat, x.s.unknown, x.s.z3.time.as_millis(), x.s.z3.longest.as_millis(),
        x.s.assert_queries, x.s.assert_time.as_millis(), x.s.branch_queries, x.s.path_queries, x.s.presolved, x.s.model_hits, x.s.cache_hits,
        esc(&z3::version()), x.t0.elapsed().as_millis()
    );
    let r: Vec<String> = s.reach.iter().map(|x| x.to_string()).collect();
    let _ = write!(o, "\"reach\":[{}],", r.join(","));
    let m: Vec<String> = x.assert_msgs.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    let _ = write!(o, "\"assert_msgs\":{{{}}},", m.join(","));
    let v: Vec<String> = x.violations.iter().map(viol_json).collect();
    let _ = write!(o, "\"violations\":[{}],", v.join(","));
    let v: Vec<String> =
        x.known_hits.iter().map(|(k, v)| format!("{}:{}", esc(k), viol_json(v))).collect();
    let _ = write!(o, "\"known\":{{{}}},", v.join(","));
    let v: Vec<String> = x.errors.iter().take(5).map(|e| esc(e)).collect();
    let _ = write!(o, "\"errors\":[{}],", v.join(","));
    let v: Vec<String> = x
        .samples
        .iter()
        .map(|s| {
            let l: Vec<String> = s.logs.iter().map(|x| x.to_string()).collect();
            format!("{{\"inputs\":{},\"logs\":[{}]}}", inputs_json(&s.inputs), l.join(","))
        })
        .collect();
    let _ = write!(o, "\"samples\":[{}],", v.join(","));
    let h: Vec<String> = x.hooks.iter().map(|h| esc(h.name)).collect();
    let _ = write!(o, "\"hooks\":[{}],", h.join(","));
    let mut c: Vec<String> = vec![];
    let mut nf = 0;
    for (i, b) in x.cov.iter().enumerate() {
        if let Some(b) = b {
            nf += 1;
            let n = x.w.fns[i].name;
            if opt.cov.split(',').any(|p| n.contains(p)) {
                let bits: String = b.iter().map(|x| if *x { '1' } else { '0' }).collect();
                c.push(format!("{}:{}", esc(n), esc(&bits)));
            }
        }
    }
    let _ = write!(o, "\"functions\":{},\"cov\":{{{}}}}}", nf, c.join(","));
    o
}

fn explore(x: &mut Exec, sh: &'static Shared, opt: &Opt, deadline: Instant) -> (usize, Vec<i32>) {
    let mut kids = vec![];
    loop {
        if sh.stop.load(SeqCst) != 0 || Instant::now() > deadline || x.errors.len() >= 5 {
            break;
        }
        let Some(st) = x.work.pop() else { break };
        let (st, e) = x.run(st);
        x.end_path(st, e);
        sh.paths.fetch_add(1, SeqCst);
        if !x.violations.is_empty() || !x.errors.is_empty() {
            sh.stop.store(1, SeqCst);
        }
        // hand half of the pending states to a new process
        while x.work.len() >= 2 && sh.active.load(SeqCst) < opt.workers {
            if sh.active.fetch_add(1, SeqCst) >= opt.workers {
                sh.active.fetch_sub(1, SeqCst);
                break;
            }
            let n = x.work.len();
            let pid = unsafe { fork() };
            if pid < 0 {
                sh.active.fetch_sub(1, SeqCst);
                break;
            }
            if pid == 0 {
                // the child takes every other state, oldest first, and starts counting afresh
                let mut w = vec![];
                for (i, s) in std::mem::take(&mut x.work).into_iter().enumerate() {
                    if i % 2 == 0 {
                        w.push(s);
                    }
                }
                x.work = w;
                fresh_stats(x);
                let (left, kids) = explore(x, sh, opt, deadline);
                finish(x, sh, left, kids, opt);
            }
            kids.push(pid);
            let mut w = Vec::with_capacity(n / 2 + 1);
            for (i, s) in std::mem::take(&mut x.work).into_iter().enumerate() {
                if i % 2 == 1 {
                    w.push(s);
                }
            }
            x.work = w;
        }
    }
    (x.work.len(), kids)
}

fn fresh_stats(x: &mut Exec) {
    x.stats = Stats {
        paths: 0,
        killed: 0,
        instrs: 0,
        forks: 0,
        asserts: 0,
        asserts_const: 0,
        reach: [0; 128],
        max_depth: 0,
        max_path_instrs: 0,
        max_inputs: 0,
        max_objs: 0,
    };
    x.s.z3.queries = 0;
    x.s.z3.sat = 0;
    x.s.z3.unsat = 0;
    x.s.z3.time = Duration::ZERO;
    x.s.unknown = 0;
    x.s.assert_queries = 0;
    x.s.assert_time = Duration::ZERO;
    x.s.branch_queries = 0;
    x.s.path_queries = 0;
    x.s.presolved = 0;
    x.s.model_hits = 0;
    x.s.cache_hits = 0;
    x.violations.clear();
    x.errors.clear();
    x.samples.clear();
    x.assert_msgs.clear();
    x.known_hits.clear();
    x.t0 = Instant::now();
}

fn finish(x: &mut Exec, sh: &'static Shared, left: usize, kids: Vec<i32>, opt: &Opt) -> ! {
    let n = sh.seq.fetch_add(1, SeqCst);
    let r = report(x, left, opt);
    let f = format!("{}.{n}", opt.out);
    let ok = std::fs::write(&f, r).is_ok();
    sh.active.fetch_sub(1, SeqCst);
    let mut bad = !ok;
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0) };
        bad |= s != 0;
    }
    unsafe { _exit(if bad { 3 } else { 0 }) }
}

fn main() {
    let mut o = Opt {
        entry: String::new(),
        out: String::new(),
        max_instr: 40_000_000,
        time: 600,
        workers: 8,
        mods: vec![],
        trace: false,
        known: vec![],
        samples: 8,
        sample_every: 97,
        cov: "9tower_lsp".into(),
    };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--entry" => o.entry = v(),
            "--out" => o.out = v(),
            "--max-instr" => o.max_instr = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--workers" => o.workers = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--sample-every" => o.sample_every = v().parse().unwrap(),
            "--known" => o.known.push(v()),
            "--cov" => o.cov = v(),
            "--trace" => o.trace = true,
            "--parse-all" => o.entry = "--parse-all".into(),
            _ => o.mods.push(x),
        }
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || go(o)).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn go(opt: Opt) -> i32 {
    let t0 = Instant::now();
    let mut w = ir::World::new();
    for m in &opt.mods {
        w.load(m);
    }
    if opt.entry == "--parse-all" {
        let n = w.fns.len() as u32;
        let mut uns: std::collections::BTreeMap<String, u32> = Default::default();
        for i in 0..n {
            if w.fns[i as usize].text.is_none() {
                continue;
            }
            match w.func(i) {
                Ok(f) => {
                    for b in &f.blocks {
                        for i in &b.ins {
                            match i {
                                ir::Ins::Unsupported(s) => {
                                    *uns.entry(s.chars().take(90).collect()).or_insert(0) += 1
                                }
                                ir::Ins::Call {
                                    callee: ir::Callee::Intr(ir::Intr::Unknown, n), ..
                                } => *uns.entry(n.to_string()).or_insert(0) += 1,
                                _ => {}
                            }
                        }
                    }
                }
                Err(e) => println!("{e}"),
            }
        }
        for g in 0..w.gs.len() as u32 {
            let t = w.gs[g as usize].text;
            if ir::find(&t[..t.len().min(60)], b"alias ").is_none() {
                w.global(g);
            }
        }
        println!("{n} functions in {:?}", t0.elapsed());
        for (k, v) in uns {
            println!("{v} {k}");
        }
        return 0;
    }
    let sh = shared();
    let entry = match w.find_fn(&opt.entry) {
        Some(f) => f,
        None => {
            eprintln!("no function {}", opt.entry);
            return 2;
        }
    };
    let mut x = Exec {
        w,
        s: pc::Solver::new(200_000_000),
        work: vec![],
        stats: Stats {
            paths: 0,
            killed: 0,
            instrs: 0,
            forks: 0,
            asserts: 0,
            asserts_const: 0,
            reach: [0; 128],
            max_depth: 0,
            max_path_instrs: 0,
            max_inputs: 0,
            max_objs: 0,
        },
        violations: vec![],
        errors: vec![],
        samples: vec![],
        sample_every: opt.sample_every,
        max_samples: opt.samples,
        max_instr: opt.max_instr,
        cov: vec![],
        hooks: vec![],
        trace: opt.trace,
        t0,
        assert_msgs: Default::default(),
        known: opt.known.clone(),
        known_hits: Default::default(),
    };
    let st = match x.new_state(entry) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    x.work.push(st);
    sh.active.store(1, SeqCst);
    let deadline = t0 + Duration::from_secs(opt.time);
    let (left, kids) = explore(&mut x, sh, &opt, deadline);
    finish(&mut x, sh, left, kids, &opt)
}
