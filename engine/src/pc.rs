//! Path conditions and the decision procedure on top of z3.
//!
//! Constraints over one symbolic byte are kept as an exact 256-bit truth table per byte; the
//! table decides branches over bytes that occur in no other constraint. Everything else, and
//! every assertion and every end of path, is decided by z3.

use crate::expr::*;
use crate::z3::{Res, Z3};
use std::rc::Rc;
use std::time::Duration;

pub type Table = [u64; 4];

#[derive(Clone, Default)]
pub struct Pc {
    pub dom: Rc<FxMap<u32, Table>>,
    pub multi: Rc<Vec<Ex>>,
    pub mvars: Rc<FxSet<u32>>,
    pub fixed: Rc<FxMap<Ex, u128>>,
    pub model: Rc<Assign>,
}

fn full(v: u32) -> Table {
    match ar().var_w[v as usize] {
        8 => [u64::MAX; 4],
        w => {
            let n = 1usize << w;
            let mut t = [0; 4];
            for x in 0..n {
                t[x / 64] |= 1 << (x % 64);
            }
            t
        }
    }
}
fn and(a: &Table, b: &Table) -> Table {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn empty(a: &Table) -> bool {
    *a == [0; 4]
}
fn has(t: &Table, x: u128) -> bool {
    x < 256 && t[x as usize / 64] >> (x % 64) & 1 == 1
}
fn single(t: &Table) -> bool {
    t.iter().map(|x| x.count_ones()).sum::<u32>() == 1
}
pub fn values(t: &Table) -> Vec<u8> {
    (0..=255u8).filter(|x| has(t, *x as u128)).collect()
}
fn pick(t: &Table) -> u128 {
    // prefer printable characters, they make nicer counterexamples
    for x in 0x20..0x7f {
        if has(t, x) {
            return x;
        }
    }
    (0..256).find(|x| has(t, *x)).unwrap()
}

impl Pc {
    pub fn dom(&self, v: u32) -> Table {
        self.dom.get(&v).copied().unwrap_or_else(|| full(v))
    }
}

pub struct Solver {
    pub z3: Z3,
    cache: FxMap<Vec<u32>, Option<Rc<Assign>>>,
    domf: FxMap<(u32, Table), Ex>,
    pub presolved: u64,
    pub model_hits: u64,
    pub cache_hits: u64,
    pub unknown: u64,
    pub xcheck: bool,
    /// Print every branch query (SYMEX_SHOW).
    pub show: bool,
    pub assert_queries: u64,
    pub assert_time: Duration,
    pub branch_queries: u64,
    pub path_queries: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    Branch,
    Assert,
    Path,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        Solver {
            z3: Z3::new(rlimit),
            cache: Default::default(),
            domf: Default::default(),
            presolved: 0,
            model_hits: 0,
            cache_hits: 0,
            unknown: 0,
            show: std::env::var("SYMEX_SHOW").is_ok(),
            xcheck: std::env::var("SYMEX_XCHECK").is_ok(),
            assert_queries: 0,
            assert_time: Duration::ZERO,
            branch_queries: 0,
            path_queries: 0,
        }
    }

    /// The domain of byte `v` as a formula.
    fn dom_formula(&mut self, v: u32, t: Table) -> Ex {
        if let Some(e) = self.domf.get(&(v, t)) {
            return *e;
        }
        let w = ar().var_w[v as usize] as u32;
        let x = ar().raw_var(v);
        let n = 1u32 << w;
        let mut r = FALSE;
        let mut i = 0;
        while i < n {
            if !has(&t, i as u128) {
                i += 1;
                continue;
            }
            let s = i;
            while i < n && has(&t, i as u128) {
                i += 1;
            }
            let e = if i == s + 1 {
                bin(Op::Eq, x, cst(w, s as u128))
            } else {
                let lo = bin(Op::Ule, cst(w, s as u128), x);
                let hi = bin(Op::Ule, x, cst(w, i as u128 - 1));
                bin(Op::And, lo, hi)
            };
            r = bin(Op::Or, r, e);
        }
        self.domf.insert((v, t), r);
        r
    }

    fn slice(&mut self, pc: &Pc, c: Option<Ex>) -> Vec<Ex> {
        let mut out = vec![];
        let mut vars: FxSet<u32> = Default::default();
        match c {
            Some(c) => {
                out.push(c);
                vars.extend(vars_of(c).iter().copied());
                let mut used = vec![false; pc.multi.len()];
                loop {
                    let mut ch = false;
                    for (i, e) in pc.multi.iter().enumerate() {
                        if !used[i] {
                            let ev = vars_of(*e);
                            if ev.iter().any(|v| vars.contains(v)) {
                                used[i] = true;
                                out.push(*e);
                                for v in ev.iter() {
                                    ch |= vars.insert(*v);
                                }
                            }
                        }
                    }
                    if !ch {
                        break;
                    }
                }
            }
            None => {
                out.extend(pc.multi.iter().copied());
                for e in pc.multi.iter() {
                    vars.extend(vars_of(*e).iter().copied());
                }
                vars.extend(pc.dom.keys().copied());
            }
        }
        let mut vs: Vec<u32> = vars.into_iter().collect();
        vs.sort_unstable();
        for v in vs {
            if let Some(t) = pc.dom.get(&v) {
                // Choices: bytes with one value that occur nowhere else.
                if c.is_none() && single(t) && !pc.mvars.contains(&v) {
                    continue;
                }
                let e = self.dom_formula(v, *t);
                if e != TRUE {
                    out.push(e);
                }
            }
        }
        out
    }

    /// Is `pc and c` satisfiable? Returns values for the variables concerned.
    pub fn query(&mut self, pc: &Pc, c: Option<Ex>, why: Why) -> Result<Option<Rc<Assign>>, String> {
        let q = self.slice(pc, c);
        let mut key: Vec<u32> = q.iter().map(|e| e.0).collect();
        key.sort_unstable();
        key.dedup();
        let full = |r: Option<Rc<Assign>>| match r {
            Some(mut m) if c.is_none() => {
                let a = Rc::make_mut(&mut m);
                for (v, t) in pc.dom.iter() {
                    if single(t) && !pc.mvars.contains(v) {
                        a.insert(*v, pick(t));
                    }
                }
                Some(m)
            }
            r => r,
        };
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return Ok(full(r.clone()));
        }
        if self.show && why == Why::Branch {
            eprintln!("{}", q.iter().map(|e| show(*e)).collect::<Vec<_>>().join(" ; "));
        }
        let t0 = std::time::Instant::now();
        let r = match self.z3.check(&q, c.is_none()) {
            Res::Sat(a) => Some(Rc::new(a)),
            Res::Unsat => None,
            Res::Unknown => {
                self.unknown += 1;
                return Err(format!("solver gave up: {}", q.iter().map(|e| show(*e)).collect::<Vec<_>>().join(" ; ")));
            }
        };
        match why {
            Why::Assert => {
                self.assert_queries += 1;
                self.assert_time += t0.elapsed();
            }
            Why::Branch => self.branch_queries += 1,
            Why::Path => self.path_queries += 1,
        }
        self.cache.insert(key, r.clone());
        Ok(full(r))
    }

    /// Branch feasibility. The returned assignment makes `c` true together with the model.
    pub fn feasible(&mut self, pc: &Pc, c: Ex) -> Result<Option<Rc<Assign>>, String> {
        if let Some(k) = konst(c) {
            return Ok(if k == 1 { Some(Default::default()) } else { None });
        }
        if let Some((v, t)) = table(c) {
            let d = pc.dom(v);
            let i = and(&t, &d);
            if empty(&i) {
                self.presolved += 1;
                if self.xcheck {
                    assert!(self.query(pc, Some(c), Why::Branch)?.is_none(), "presolver mismatch");
                }
                return Ok(None);
            }
            let cur = pc.model.get(&v).copied().unwrap_or(0);
            if has(&i, cur) {
                self.presolved += 1;
                return Ok(Some(Default::default()));
            }
            if i == d || !pc.mvars.contains(&v) {
                self.presolved += 1;
                let mut a = Assign::default();
                a.insert(v, pick(&i));
                return Ok(Some(Rc::new(a)));
            }
        } else if eval(c, &pc.model) == 1 {
            self.model_hits += 1;
            return Ok(Some(Default::default()));
        }
        self.query(pc, Some(c), Why::Branch)
    }

    /// Adds `c` (known to be feasible with `a`).
    pub fn add(&mut self, pc: &mut Pc, c: Ex, a: &Rc<Assign>) {
        if konst(c).is_some() {
            return;
        }
        let n = ar().node(c);
        if n.op == Op::And {
            self.add(pc, Ex(n.a), a);
            self.add(pc, Ex(n.b), a);
            return;
        }
        if !a.is_empty() {
            let m = Rc::make_mut(&mut pc.model);
            for (k, v) in a.iter() {
                m.insert(*k, *v);
            }
        }
        if let Some((v, t)) = table(c) {
            let d = and(&pc.dom(v), &t);
            Rc::make_mut(&mut pc.dom).insert(v, d);
        } else {
            if pc.multi.contains(&c) {
                return;
            }
            Rc::make_mut(&mut pc.multi).push(c);
            let m = Rc::make_mut(&mut pc.mvars);
            for v in vars_of(c).iter() {
                m.insert(*v);
            }
            // remember equalities with constants
            if n.op == Op::Eq {
                if let Some(k) = konst(Ex(n.b)) {
                    Rc::make_mut(&mut pc.fixed).insert(Ex(n.a), k);
                }
            }
        }
        debug_assert_eq!(eval(c, &pc.model), 1, "{}", show(c));
    }

    /// The value of `e` if the path condition fixes it syntactically.
    pub fn known(&self, pc: &Pc, e: Ex) -> Option<u128> {
        if let Some(k) = konst(e) {
            return Some(k);
        }
        if let Some(k) = pc.fixed.get(&e) {
            return Some(*k);
        }
        let v = vars_of(e);
        // every variable pinned to one value?
        let mut a = Assign::default();
        for x in v.iter() {
            let w = ar().var_w[*x as usize];
            if w == 0 || w > 8 {
                return None;
            }
            let t = pc.dom.get(x)?;
            if t.iter().map(|x| x.count_ones()).sum::<u32>() != 1 {
                return None;
            }
            a.insert(*x, pick(t));
        }
        Some(eval(e, &a))
    }

    /// All values a single-byte expression can take, with the bytes producing them.
    pub fn byte_values(&self, pc: &Pc, e: Ex) -> Option<(u32, Vec<(u8, u128)>)> {
        let v = vars_of(e);
        if v.len() != 1 {
            return None;
        }
        let v = v[0];
        let w = ar().var_w[v as usize];
        if w == 0 || w > 8 {
            return None;
        }
        let t = pc.dom(v);
        let mut out = vec![];
        for x in values(&t) {
            let mut a = Assign::default();
            a.insert(v, x as u128);
            out.push((x, eval(e, &a)));
        }
        Some((v, out))
    }

    /// A constant if every value of the one byte `e` depends on gives the same.
    pub fn settled(&self, pc: &Pc, e: Ex) -> Ex {
        match self.byte_values(pc, e) {
            Some((_, v)) if !v.is_empty() && v.iter().all(|x| x.1 == v[0].1) => cst(width(e), v[0].1),
            _ => e,
        }
    }

    pub fn dom_of_set(&mut self, v: u32, xs: &[u8]) -> Ex {
        let mut t = [0; 4];
        for x in xs {
            t[*x as usize / 64] |= 1 << (*x % 64);
        }
        self.dom_formula(v, t)
    }
}
