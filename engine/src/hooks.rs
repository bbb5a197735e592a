//! Functions that are not executed from their IR: the harness primitives, the allocator, the
//! operating system, panics and the (irrelevant) hash function of std's hash maps.

use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::pc::Why;
use std::rc::Rc;

type F = fn(&mut Exec, &mut State, u32, &[Val]) -> Res<Option<Val>>;

pub struct Hook {
    pub name: &'static str,
    pub f: F,
}

fn i(x: u64) -> Res<Option<Val>> {
    Ok(Some(Val::I(x)))
}

/// Exact names first, then substrings of mangled names.
const EXACT: &[(&str, F)] = &[
    ("sym_u8", h_sym8),
    ("sym_u32", h_sym32),
    ("sym_u64", h_sym64),
    ("sym_bytes", h_symbytes),
    ("sym_choose", h_choose),
    ("sym_assume", h_assume),
    ("sym_assert", h_assert),
    ("sym_reach", h_reach),
    ("sym_log", h_log),
    ("sym_fail", h_fail),
    ("sym_is_symbolic", h_is_symbolic),
    ("memcmp", h_memcmp),
    ("bcmp", h_bcmp),
    ("strlen", h_strlen),
    ("memcpy", h_memcpy),
    ("memmove", h_memcpy),
    ("syscall", h_syscall),
    ("__errno_location", h_errno),
    ("getenv", |_, _, _, _| i(0)),
    ("getrandom", h_getrandom),
    ("sched_getaffinity", |_, _, _, _| i(u32::MAX as u64)),
    ("sched_yield", |_, _, _, _| i(0)),
    ("sysconf", |_, _, _, _| i(1)),
    ("open64", |_, _, _, _| i(u32::MAX as u64)),
    ("__cxa_thread_atexit_impl", |_, _, _, _| i(0)),
    ("clock_gettime", h_clock),
    ("write", |_, _, _, a| Ok(Some(a[2].clone()))),
    ("writev", |_, _, _, _| viol("write to a file descriptor")),
    ("abort", |_, _, _, _| viol("abort()")),
    ("gettid", |_, _, _, _| i(1)),
    ("pthread_self", |_, _, _, _| i(1)),
    ("pthread_key_create", |_, _, _, _| i(0)),
    ("pthread_setspecific", |_, _, _, _| i(0)),
    ("poll", |_, _, _, _| viol("blocked forever: poll()")),
];

const SUB: &[(&[&str], F)] = &[
    (&["7___rustc12___rust_alloc"], h_alloc),
    (&["7___rustc14___rust_dealloc"], h_dealloc),
    (&["7___rustc14___rust_realloc"], h_realloc),
    (&["7___rustc19___rust_alloc_zeroed"], h_alloc),
    (&["35___rust_no_alloc_shim_is_unstable_v2"], |_, _, _, _| Ok(None)),
    (&["4core9panicking9panic_fmt"], h_panic),
    (&["4core9panicking18panic_nounwind_fmt"], h_panic),
    (&["3std9panicking"], h_panic_std),
    (&["18___rust_start_panic"], h_panic_std),
    (&["3std7process5abort"], |_, _, _, _| viol("process::abort()")),
    (&["10std_detect", "21detect_and_initialize"], h_detect),
    (&["13DefaultHasher", "6Hasher6finish"], |_, _, _, _| i(0)),
    (&["13DefaultHasher", "6Hasher5write"], |_, _, _, _| Ok(None)),
    (&["13DefaultHasher", "6Hasher9write_str"], |_, _, _, _| Ok(None)),
    (&["13DefaultHasher", "6Hasher8write_u8"], |_, _, _, _| Ok(None)),
    (&["11RandomState", "BuildHasher8hash_one"], |_, _, _, _| i(0)),
    (&["11Fallibility17capacity_overflow"], |_, _, _, _| viol("hash table capacity overflow")),
    (&["11Fallibility9alloc_err"], |_, _, _, _| viol("hash table allocation error")),
];

pub fn lookup(x: &mut Exec, slot: u32) -> Option<u32> {
    let name = x.w.fns[slot as usize].name;
    let f = EXACT.iter().find(|e| e.0 == name).map(|e| e.1).or_else(|| {
        if !name.starts_with("_R") {
            return None;
        }
        SUB.iter().find(|e| e.0.iter().all(|p| name.contains(p))).map(|e| e.1)
    })?;
    x.hooks.push(Hook { name, f });
    Some(x.hooks.len() as u32 - 1)
}

// ---------------------------------------------------------------------------------- harness

fn fresh(st: &mut State, w: u32) -> Ex {
    let e = var_at(st.inputs.len() as u32, w);
    Rc::make_mut(&mut st.inputs).push(e);
    e
}
fn h_sym8(_: &mut Exec, st: &mut State, _: u32, _: &[Val]) -> Res<Option<Val>> {
    Ok(Some(Val::S(fresh(st, 8))))
}
fn h_sym32(_: &mut Exec, st: &mut State, _: u32, _: &[Val]) -> Res<Option<Val>> {
    Ok(Some(Val::S(fresh(st, 32))))
}
fn h_sym64(_: &mut Exec, st: &mut State, _: u32, _: &[Val]) -> Res<Option<Val>> {
    Ok(Some(Val::S(fresh(st, 64))))
}
fn h_symbytes(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let p = x.cv(st, &a[0])?;
    let n = x.cv(st, &a[1])?;
    x.at_mut(st, p, n)?;
    for k in 0..n {
        let e = fresh(st, 8);
        let (o, off) = x.at_mut(st, p + k, 1)?;
        o.put(off, e);
    }
    Ok(None)
}
/// A value below `n`; the path forks over all of them.
fn h_choose(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let n = x.cv(st, &a[0])?;
    if n == 0 || n > 255 {
        return err("sym_choose range");
    }
    // The instruction may be executed again after a fork: the variable is only appended once
    // its value is decided.
    let v = var_at(st.inputs.len() as u32, 8);
    let r = bin(Op::Ult, v, cst(8, n as u128));
    if let crate::expr::TRUE = r {
    } else {
        match x.s.feasible(&st.pc, r).map_err(|e| Box::new(End::Error(e)))? {
            Some(m) => x.s.add(&mut st.pc, r, &m),
            None => return err("sym_choose"),
        }
    }
    let k = x.concretize(st, v)?;
    Rc::make_mut(&mut st.inputs).push(v);
    i(k as u64)
}
fn bool_of(v: &Val) -> Ex {
    match v {
        Val::I(x) => {
            if *x & 1 == 1 {
                TRUE
            } else {
                FALSE
            }
        }
        Val::S(e) => {
            if width(*e) == 1 {
                *e
            } else {
                not(eq(*e, cst(width(*e), 0)))
            }
        }
        _ => panic!("bool"),
    }
}
fn h_assume(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let c = bool_of(&a[0]);
    if c == TRUE {
        return Ok(None);
    }
    match x.s.feasible(&st.pc, c).map_err(|e| Box::new(End::Error(e)))? {
        Some(m) if c != FALSE => {
            x.s.add(&mut st.pc, c, &m);
            Ok(None)
        }
        _ => Err(Box::new(End::Killed)),
    }
}
fn h_assert(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let c = bool_of(&a[0]);
    let p = x.cv(st, &a[1])?;
    let n = x.cv(st, &a[2])?;
    let msg = x.read_str(st, p, n);
    x.stats.asserts += 1;
    *x.assert_msgs.entry(msg.clone()).or_insert(0) += 1;
    if c == TRUE {
        x.stats.asserts_const += 1;
        return Ok(None);
    }
    if c == FALSE {
        return viol(msg);
    }
    let nc = not(c);
    match x.s.query(&st.pc, Some(nc), Why::Assert) {
        Err(e) => err(e),
        Ok(Some(_)) => {
            x.record_violation(st, Some(nc), msg, false);
            // continue with the values for which it holds
            match x.s.feasible(&st.pc, c).map_err(|e| Box::new(End::Error(e)))? {
                Some(m) => {
                    x.s.add(&mut st.pc, c, &m);
                    Ok(None)
                }
                None => Err(Box::new(End::Killed)),
            }
        }
        Ok(None) => Ok(None),
    }
}
fn h_fail(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let p = x.cv(st, &a[0])?;
    let n = x.cv(st, &a[1])?;
    x.stats.asserts += 1;
    let msg = x.read_str(st, p, n);
    viol(msg)
}
fn h_reach(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let n = x.cv(st, &a[0])? as usize % 128;
    st.reach[n / 64] |= 1 << (n % 64);
    Ok(None)
}
fn h_log(_: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let e = to_ex(&a[0], 64);
    Rc::make_mut(&mut st.logs).push(e);
    Ok(None)
}
fn h_is_symbolic(_: &mut Exec, _: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    i(matches!(a[0], Val::S(_)) as u64)
}

// ------------------------------------------------------------------------------- C library

fn h_memcmp(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let n = x.cv(st, &a[2])?;
    if n == 0 {
        return i(0);
    }
    let (p, q) = (x.cv(st, &a[0])?, x.cv(st, &a[1])?);
    let s = x.read_bytes(st, p, n)?;
    let t = x.read_bytes(st, q, n)?;
    let mut r = cst(32, 0);
    for k in (0..n as usize).rev() {
        let e = eq(s[k], t[k]);
        let d = ite(bin(Op::Ult, s[k], t[k]), cst(32, u128::MAX), cst(32, 1));
        r = ite(e, r, d);
    }
    Ok(Some(from_ex(r)))
}
fn h_bcmp(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let n = x.cv(st, &a[2])?;
    if n == 0 {
        return i(0);
    }
    let (p, q) = (x.cv(st, &a[0])?, x.cv(st, &a[1])?);
    let s = x.read_bytes(st, p, n)?;
    let t = x.read_bytes(st, q, n)?;
    let mut r = TRUE;
    for k in 0..n as usize {
        r = and1(r, eq(s[k], t[k]));
        if r == FALSE {
            break;
        }
    }
    Ok(Some(from_ex(ite(r, cst(32, 0), cst(32, 1)))))
}
fn h_strlen(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let p = x.cv(st, &a[0])?;
    let mut n = 0;
    loop {
        let b = x.read_bytes(st, p + n, 1)?[0];
        if x.decide(st, eq(b, cst(8, 0)))? {
            return i(n);
        }
        n += 1;
    }
}
fn h_memcpy(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let n = x.cv(st, &a[2])?;
    let (d, s) = (x.cv(st, &a[0])?, x.cv(st, &a[1])?);
    x.copy(st, d, s, n)?;
    Ok(Some(a[0].clone()))
}
fn h_syscall(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    match x.cv(st, &a[0])? {
        202 => {
            // futex
            let op = x.cv(st, &a[2])? & 0x7f;
            if op == 0 || op == 9 {
                viol("blocked forever: waiting for a lock or a parked thread")
            } else {
                i(0)
            }
        }
        318 => {
            let (p, n) = (a[1].clone(), a[2].clone());
            h_getrandom(x, st, 0, &[p, n])
        }
        n => err(format!("system call {n}")),
    }
}
fn h_errno(x: &mut Exec, st: &mut State, _: u32, _: &[Val]) -> Res<Option<Val>> {
    let a = x.malloc(st, 4, 4)?;
    let (o, off) = x.at_mut(st, a, 4)?;
    o.write_conc(off, &2u32.to_le_bytes()); // ENOENT
    i(a)
}
fn h_getrandom(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let p = x.cv(st, &a[0])?;
    let n = x.cv(st, &a[1])?;
    let (o, off) = x.at_mut(st, p, n)?;
    o.write_conc(off, &vec![7u8; n as usize]);
    i(n)
}
fn h_clock(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let p = x.cv(st, &a[1])?;
    st.clock += 1;
    let c = st.clock;
    let (o, off) = x.at_mut(st, p, 16)?;
    o.write_conc(off, &(1_000_000u64 + c).to_le_bytes());
    o.write_conc(off + 8, &0u64.to_le_bytes());
    i(0)
}

// ------------------------------------------------------------------------------- allocator

fn h_alloc(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let n = x.cv(st, &a[0])?;
    let al = x.cv(st, &a[1])?;
    i(x.malloc(st, n, al)?)
}
fn h_dealloc(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let p = x.cv(st, &a[0])?;
    let n = x.cv(st, &a[1])?;
    let (o, _) = x.at(st, p, 0)?;
    if o.data.len() as u64 != n {
        return viol(format!("memory error: free of {n} bytes for an object of {}", o.data.len()));
    }
    x.free(st, p)?;
    Ok(None)
}
fn h_realloc(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    let p = x.cv(st, &a[0])?;
    let old = x.cv(st, &a[1])?;
    let al = x.cv(st, &a[2])?;
    let n = x.cv(st, &a[3])?;
    let q = x.malloc(st, n, al)?;
    x.copy(st, q, p, old.min(n))?;
    x.free(st, p)?;
    i(q)
}

// ---------------------------------------------------------------------------------- panics

fn h_panic(x: &mut Exec, st: &mut State, _: u32, a: &[Val]) -> Res<Option<Val>> {
    // the last argument is the &Location (file, line, column)
    for v in a.iter().rev() {
        if let Val::I(l) = v {
            if let Ok((o, off)) = x.at(st, *l, 24) {
                let d = &o.data[off..off + 24];
                let p = u64::from_le_bytes(d[0..8].try_into().unwrap());
                let n = u64::from_le_bytes(d[8..16].try_into().unwrap());
                let line = u32::from_le_bytes(d[16..20].try_into().unwrap());
                if n > 0 && n < 400 && x.at(st, p, n).is_ok() {
                    let f = x.read_str(st, p, n);
                    if f.contains(".rs") {
                        return viol(format!("panic at {f}:{line}"));
                    }
                }
            }
        }
    }
    viol("panic")
}
fn h_panic_std(x: &mut Exec, _: &mut State, slot: u32, _: &[Val]) -> Res<Option<Val>> {
    let n = x.w.fns[slot as usize].name;
    // std::panicking::panic_count::* and panicking() are ordinary queries
    if n.contains("18___rust_start_panic") || n.contains("13panic_handler") || n.contains("11begin_panic") {
        return viol("panic");
    }
    if n.contains("9panicking") && !n.contains("11panic_count") {
        return i(0);
    }
    i(1)
}
fn h_detect(_: &mut Exec, _: &mut State, _: u32, _: &[Val]) -> Res<Option<Val>> {
    // no optional CPU features; the top bit marks "initialised"
    i(1 << 63)
}
