//! Native replay: runs one harness with recorded values for its symbolic inputs.
//!
//! usage: replay HARNESS FILE   (FILE: one `width value` pair per line)
//! Prints one `log N` line per observation. Exit status 1 and a `FAILED` line when an assertion
//! does not hold, 3 when the recorded values do not fit the harness.

use std::sync::Mutex;

static INPUTS: Mutex<(Vec<(u32, u64)>, usize)> = Mutex::new((Vec::new(), 0));

fn next(w: u32) -> u64 {
    let mut g = INPUTS.lock().unwrap();
    let i = g.1;
    g.1 += 1;
    match g.0.get(i) {
        Some((ww, v)) if *ww == w => *v,
        Some((ww, _)) => {
            println!("MISMATCH width {ww} for {w}");
            std::process::exit(3)
        }
        None => 0,
    }
}

#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    next(8) as u8
}
#[no_mangle]
extern "C" fn sym_u32() -> u32 {
    next(32) as u32
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    next(64)
}
#[no_mangle]
unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = next(8) as u8;
    }
}
#[no_mangle]
extern "C" fn sym_choose(n: u32) -> u32 {
    let v = next(8) as u32;
    if v >= n {
        println!("MISMATCH choice {v} of {n}");
        std::process::exit(3)
    }
    v
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("MISMATCH assumption");
        std::process::exit(3)
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        sym_fail(p, n)
    }
}
#[no_mangle]
unsafe extern "C" fn sym_fail(p: *const u8, n: usize) -> ! {
    let s = std::slice::from_raw_parts(p, n);
    println!("FAILED {}", String::from_utf8_lossy(s));
    std::process::exit(1)
}
#[no_mangle]
extern "C" fn sym_reach(n: u32) {
    println!("reach {n}");
}
#[no_mangle]
extern "C" fn sym_log(x: u64) {
    println!("log {x}");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::entry(&a[1]).expect("unknown harness");
    let t = std::fs::read_to_string(&a[2]).expect("replay file");
    let mut v = vec![];
    for l in t.lines() {
        if l.starts_with('#') || l.trim().is_empty() {
            continue;
        }
        let mut p = l.split_whitespace();
        let w: u32 = p.next().unwrap().parse().unwrap();
        let x: u64 = p.next().unwrap().parse().unwrap();
        v.push((w, x));
    }
    INPUTS.lock().unwrap().0 = v;
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        println!("FAILED panic at {l}");
        eprintln!("{i}");
        std::process::exit(1)
    }));
    f();
    println!("ok");
}
