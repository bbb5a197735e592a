//! Hash-consed bit-vector expressions with a rewriting simplifier.
//!
//! The arena is process-global and append-only (the executor is single threaded; parallel
//! workers are separate processes).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxBuild = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxBuild>;
pub type FxSet<K> = std::collections::HashSet<K, FxBuild>;

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Ex(pub u32);

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}
use Op::*;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<Rc<[u32]>>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    map: FxMap<Node, u32>,
    tables: FxMap<u32, [u64; 4]>,
    pub var_w: Vec<u16>,
    by_pos: FxMap<(u32, u32), Ex>,
    empty: Rc<[u32]>,
    memo: Vec<u128>,
    memo_ep: Vec<u32>,
    epoch: u32,
}

static mut ARENA: Option<Arena> = None;

#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() {
            let mut a = Arena {
                nodes: vec![],
                vars: vec![],
                lo: vec![],
                hi: vec![],
                map: Default::default(),
                tables: Default::default(),
                var_w: vec![],
                by_pos: Default::default(),
                empty: Rc::from(vec![]),
                memo: vec![],
                memo_ep: vec![],
                epoch: 0,
            };
            // FALSE = 0, TRUE = 1
            a.raw(Node { op: Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
            a.raw(Node { op: Const, w: 1, a: 0, b: 0, c: 0, k: 1 });
            ARENA = Some(a);
        }
        ARENA.as_mut().unwrap_unchecked()
    }
}

pub const FALSE: Ex = Ex(0);
pub const TRUE: Ex = Ex(1);

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    // `w` is the operand width. Division by zero follows SMT-LIB (never reached in real code).
    let m = mask(w);
    let r = match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (x >> s) as u128
        }
        Eq => return (a == b) as u128,
        Ult => return (a < b) as u128,
        Ule => return (a <= b) as u128,
        Slt => return (sext128(a, w) < sext128(b, w)) as u128,
        Sle => return (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    fn raw(&mut self, n: Node) -> Ex {
        if let Some(&i) = self.map.get(&n) {
            return Ex(i);
        }
        let i = self.nodes.len() as u32;
        let vars = match n.op {
            Const => self.empty.clone(),
            Var => Rc::from(vec![n.a]),
            Extract | ZExt | SExt => self.vars[n.a as usize].clone(),
            Ite => {
                let x = merge(&self.vars[n.a as usize], &self.vars[n.b as usize]);
                merge(&x, &self.vars[n.c as usize])
            }
            _ => merge(&self.vars[n.a as usize], &self.vars[n.b as usize]),
        };
        let (lo, hi) = self.range(&n);
        self.nodes.push(n);
        self.vars.push(vars);
        self.lo.push(lo);
        self.hi.push(hi);
        self.memo.push(0);
        self.memo_ep.push(0);
        self.map.insert(n, i);
        Ex(i)
    }

    fn range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w as u32);
        let l = |x: u32| self.lo[x as usize];
        let h = |x: u32| self.hi[x as usize];
        match n.op {
            Const => (n.k, n.k),
            ZExt => (l(n.a), h(n.a)),
            Ite => (l(n.b).min(l(n.c)), h(n.b).max(h(n.c))),
            And => (0, h(n.a).min(h(n.b))),
            Or => {
                let mx = h(n.a).max(h(n.b));
                let bits = 128 - mx.leading_zeros();
                (l(n.a).max(l(n.b)), mask(bits).min(m))
            }
            Xor => {
                let mx = h(n.a).max(h(n.b));
                (0, mask(128 - mx.leading_zeros()).min(m))
            }
            Add => {
                let (a, o) = h(n.a).overflowing_add(h(n.b));
                if !o && a <= m {
                    (l(n.a) + l(n.b), a)
                } else if self.nodes[n.b as usize].op == Const {
                    // x + (-k) with x >= k
                    let k = h(n.b);
                    let neg = (m - k).wrapping_add(1) & m;
                    if neg != 0 && l(n.a) >= neg {
                        (l(n.a) - neg, h(n.a) - neg)
                    } else {
                        (0, m)
                    }
                } else {
                    (0, m)
                }
            }
            Sub => {
                if l(n.a) >= h(n.b) {
                    (l(n.a) - h(n.b), h(n.a) - l(n.b))
                } else {
                    (0, m)
                }
            }
            Mul => match h(n.a).checked_mul(h(n.b)) {
                Some(x) if x <= m => (l(n.a) * l(n.b), x),
                _ => (0, m),
            },
            UDiv => {
                if l(n.b) > 0 {
                    (l(n.a) / h(n.b), h(n.a) / l(n.b))
                } else {
                    (0, m)
                }
            }
            URem => {
                if l(n.b) > 0 {
                    (0, (h(n.b) - 1).min(h(n.a)))
                } else {
                    (0, m)
                }
            }
            Concat => {
                let wb = self.nodes[n.b as usize].w as u32;
                if wb >= 128 {
                    return (0, m);
                }
                (
                    (l(n.a) << wb) | l(n.b),
                    (h(n.a) << wb) | h(n.b),
                )
            }
            LShr => {
                if self.nodes[n.b as usize].op == Const {
                    let s = h(n.b);
                    if s < 128 {
                        return (l(n.a) >> s, h(n.a) >> s);
                    }
                }
                (0, h(n.a))
            }
            Extract => {
                if n.b == 0 && h(n.a) <= m {
                    (l(n.a), h(n.a))
                } else {
                    (0, m)
                }
            }
            _ => (0, m),
        }
    }

    /// The expression for variable number `v`.
    pub fn raw_var(&mut self, v: u32) -> Ex {
        let w = self.var_w[v as usize];
        self.raw(Node { op: Var, w, a: v, b: 0, c: 0, k: 0 })
    }

    pub fn node(&self, e: Ex) -> Node {
        self.nodes[e.0 as usize]
    }
}

fn merge(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    if a[..] == b[..] {
        return a.clone();
    }
    let mut v: Vec<u32> = Vec::with_capacity(a.len() + b.len());
    v.extend_from_slice(a);
    v.extend_from_slice(b);
    v.sort_unstable();
    v.dedup();
    if v.len() == a.len() {
        return a.clone();
    }
    if v.len() == b.len() {
        return b.clone();
    }
    Rc::from(v)
}

#[inline]
pub fn width(e: Ex) -> u32 {
    ar().nodes[e.0 as usize].w as u32
}
#[inline]
pub fn konst(e: Ex) -> Option<u128> {
    let n = &ar().nodes[e.0 as usize];
    if n.op == Const {
        Some(n.k)
    } else {
        None
    }
}
pub fn vars_of(e: Ex) -> Rc<[u32]> {
    ar().vars[e.0 as usize].clone()
}
pub fn urange(e: Ex) -> (u128, u128) {
    (ar().lo[e.0 as usize], ar().hi[e.0 as usize])
}

pub fn cst(w: u32, v: u128) -> Ex {
    ar().raw(Node { op: Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
}
/// The `pos`-th symbolic input of a path; variables are shared between paths when position and
/// width agree, so that queries can be cached across paths.
pub fn var_at(pos: u32, w: u32) -> Ex {
    let a = ar();
    if let Some(e) = a.by_pos.get(&(pos, w)) {
        return *e;
    }
    let id = a.var_w.len() as u32;
    a.var_w.push(w as u16);
    let e = a.raw(Node { op: Var, w: w as u16, a: id, b: 0, c: 0, k: 0 });
    a.by_pos.insert((pos, w), e);
    e
}

fn n2(op: Op, w: u32, a: Ex, b: Ex) -> Ex {
    ar().raw(Node { op, w: w as u16, a: a.0, b: b.0, c: 0, k: 0 })
}

pub fn not(a: Ex) -> Ex {
    let w = width(a);
    bin(Xor, a, cst(w, u128::MAX))
}

pub fn and1(a: Ex, b: Ex) -> Ex {
    bin(And, a, b)
}
pub fn or1(a: Ex, b: Ex) -> Ex {
    bin(Or, a, b)
}
pub fn eq(a: Ex, b: Ex) -> Ex {
    bin(Eq, a, b)
}

/// Ite chains whose leaves are constants can absorb an operation with a constant.
fn ite_leafy(n: &Node) -> bool {
    n.op == Ite && (konst(Ex(n.b)).is_some() || konst(Ex(n.c)).is_some())
}

pub fn bin(op: Op, mut a: Ex, mut b: Ex) -> Ex {
    let w = width(a);
    debug_assert_eq!(w, width(b), "width mismatch in {:?}", op);
    let rw = match op {
        Eq | Ult | Ule | Slt | Sle => 1,
        _ => w,
    };
    let (mut ka, mut kb) = (konst(a), konst(b));
    if let (Some(x), Some(y)) = (ka, kb) {
        return cst(rw, fold(op, w, x, y));
    }
    // canonical: constant to the right, otherwise smaller id left
    if matches!(op, Add | Mul | And | Or | Xor | Eq) && (ka.is_some() || (kb.is_none() && a > b)) {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut ka, &mut kb);
    }
    let m = mask(w);
    let na = ar().node(a);
    let nb = ar().node(b);
    match op {
        Add => {
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                if na.op == Add {
                    if let Some(k2) = konst(Ex(na.b)) {
                        return bin(Add, Ex(na.a), cst(w, k.wrapping_add(k2)));
                    }
                }
            }
            if w == 1 {
                return bin(Xor, a, b);
            }
        }
        Sub => {
            if a == b {
                return cst(w, 0);
            }
            if let Some(k) = kb {
                return bin(Add, a, cst(w, 0u128.wrapping_sub(k)));
            }
            if w == 1 {
                return bin(Xor, a, b);
            }
        }
        Mul => {
            if kb == Some(0) {
                return b;
            }
            if kb == Some(1) {
                return a;
            }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Shl, a, cst(w, k.trailing_zeros() as u128));
                }
            }
        }
        UDiv => {
            if kb == Some(1) {
                return a;
            }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(LShr, a, cst(w, k.trailing_zeros() as u128));
                }
                if urange(a).1 < k {
                    return cst(w, 0);
                }
            }
        }
        URem => {
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(And, a, cst(w, k - 1));
                }
                if k != 0 && urange(a).1 < k {
                    return a;
                }
            }
        }
        And => {
            if a == b {
                return a;
            }
            if kb == Some(0) {
                return b;
            }
            if kb == Some(m) {
                return a;
            }
            if w == 1 {
                if is_not(a, b) {
                    return FALSE;
                }
                // absorb: x & (x & y), x & (x | y)
                if let Some(r) = absorb(And, a, b).or_else(|| absorb(And, b, a)) {
                    return r;
                }
            }
            if let Some(k) = kb {
                // low mask -> zext(extract)
                if (k & (k + 1)) == 0 {
                    let bits = 128 - k.leading_zeros();
                    if urange(a).1 <= k {
                        return a;
                    }
                    return zext(extract(a, bits - 1, 0), w);
                }
                // high part mask over a contiguous field
                let tz = k.trailing_zeros();
                let kk = k >> tz;
                if (kk & (kk + 1)) == 0 {
                    let bits = 128 - kk.leading_zeros();
                    let f = extract(a, tz + bits - 1, tz);
                    return concat(zext(f, w - tz), cst(tz, 0));
                }
                if na.op == And {
                    if let Some(k2) = konst(Ex(na.b)) {
                        return bin(And, Ex(na.a), cst(w, k & k2));
                    }
                }
                if na.op == ZExt {
                    let iw = width(Ex(na.a));
                    return zext(bin(And, Ex(na.a), cst(iw, k)), w);
                }
                if na.op == Concat {
                    let lw = width(Ex(na.b));
                    return concat(
                        bin(And, Ex(na.a), cst(w - lw, k >> lw)),
                        bin(And, Ex(na.b), cst(lw, k)),
                    );
                }
            }
            // disjoint concat/zext
            if na.op == Concat && nb.op == Concat && width(Ex(na.b)) == width(Ex(nb.b)) {
                return concat(bin(And, Ex(na.a), Ex(nb.a)), bin(And, Ex(na.b), Ex(nb.b)));
            }
        }
        Or => {
            if a == b {
                return a;
            }
            if kb == Some(0) {
                return a;
            }
            if kb == Some(m) {
                return b;
            }
            if w == 1 {
                if is_not(a, b) {
                    return TRUE;
                }
                if let Some(r) = absorb(Or, a, b).or_else(|| absorb(Or, b, a)) {
                    return r;
                }
            } else if let Some(r) = or_fields(a, b) {
                return r;
            }
        }
        Xor => {
            if a == b {
                return cst(w, 0);
            }
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                if na.op == Xor {
                    if let Some(k2) = konst(Ex(na.b)) {
                        return bin(Xor, Ex(na.a), cst(w, k ^ k2));
                    }
                }
                if w == 1 && k == 1 {
                    // not of comparison
                    match na.op {
                        Ult => return bin(Ule, Ex(na.b), Ex(na.a)),
                        Ule => return bin(Ult, Ex(na.b), Ex(na.a)),
                        Slt => return bin(Sle, Ex(na.b), Ex(na.a)),
                        Sle => return bin(Slt, Ex(na.b), Ex(na.a)),
                        Ite => {
                            return ite(Ex(na.a), not(Ex(na.b)), not(Ex(na.c)));
                        }
                        _ => {}
                    }
                }
                if na.op == Concat {
                    let lw = width(Ex(na.b));
                    return concat(
                        bin(Xor, Ex(na.a), cst(w - lw, k >> lw)),
                        bin(Xor, Ex(na.b), cst(lw, k)),
                    );
                }
            }
        }
        Shl => {
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                if k >= w as u128 {
                    return cst(w, 0);
                }
                let k = k as u32;
                return concat(extract(a, w - 1 - k, 0), cst(k, 0));
            }
        }
        LShr => {
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                if k >= w as u128 {
                    return cst(w, 0);
                }
                let k = k as u32;
                return zext(extract(a, w - 1, k), w);
            }
        }
        AShr => {
            if let Some(k) = kb {
                let k = (k as u32).min(w - 1);
                if k == 0 {
                    return a;
                }
                return sext(extract(a, w - 1, k), w);
            }
        }
        Eq => {
            if a == b {
                return TRUE;
            }
            let (la, ha) = urange(a);
            let (lb, hb) = urange(b);
            if ha < lb || hb < la {
                return FALSE;
            }
            if w == 1 {
                if let Some(k) = kb {
                    return if k == 1 { a } else { not(a) };
                }
                return not(bin(Xor, a, b));
            }
            if let Some(k) = kb {
                match na.op {
                    ZExt => {
                        let iw = width(Ex(na.a));
                        return if k > mask(iw) { FALSE } else { eq(Ex(na.a), cst(iw, k)) };
                    }
                    SExt => {
                        let iw = width(Ex(na.a));
                        let t = k & mask(iw);
                        return if (sext128(t, iw) as u128) & m == k {
                            eq(Ex(na.a), cst(iw, t))
                        } else {
                            FALSE
                        };
                    }
                    Concat => {
                        let lw = width(Ex(na.b));
                        let h = eq(Ex(na.a), cst(w - lw, k >> lw));
                        if h == FALSE {
                            return FALSE;
                        }
                        let l = eq(Ex(na.b), cst(lw, k));
                        return bin(And, h, l);
                    }
                    Add => {
                        if let Some(k2) = konst(Ex(na.b)) {
                            return eq(Ex(na.a), cst(w, k.wrapping_sub(k2)));
                        }
                    }
                    Xor => {
                        if let Some(k2) = konst(Ex(na.b)) {
                            return eq(Ex(na.a), cst(w, k ^ k2));
                        }
                        if k == 0 {
                            return eq(Ex(na.a), Ex(na.b));
                        }
                    }
                    Sub if k == 0 => return eq(Ex(na.a), Ex(na.b)),
                    Or if k == 0 => {
                        return bin(
                            And,
                            eq(Ex(na.a), cst(w, 0)),
                            eq(Ex(na.b), cst(w, 0)),
                        )
                    }
                    Ite if ite_leafy(&na) => {
                        return ite(Ex(na.a), eq(Ex(na.b), b), eq(Ex(na.c), b));
                    }
                    _ => {}
                }
            }
            if na.op == ZExt && nb.op == ZExt && width(Ex(na.a)) == width(Ex(nb.a)) {
                return eq(Ex(na.a), Ex(nb.a));
            }
            if na.op == Concat && nb.op == Concat && width(Ex(na.b)) == width(Ex(nb.b)) {
                let h = eq(Ex(na.a), Ex(nb.a));
                if h == FALSE {
                    return FALSE;
                }
                return bin(And, h, eq(Ex(na.b), Ex(nb.b)));
            }
        }
        Ult | Ule => {
            if a == b {
                return if op == Ult { FALSE } else { TRUE };
            }
            let (la, ha) = urange(a);
            let (lb, hb) = urange(b);
            if op == Ult {
                if ha < lb {
                    return TRUE;
                }
                if la >= hb {
                    return FALSE;
                }
                if kb == Some(1) {
                    return eq(a, cst(w, 0));
                }
                if ka == Some(0) {
                    return not(eq(b, cst(w, 0)));
                }
            } else {
                if ha <= lb {
                    return TRUE;
                }
                if la > hb {
                    return FALSE;
                }
                if kb == Some(0) {
                    return eq(a, b);
                }
                // x <= k  ->  x < k+1 ; k <= x -> !(x < k)
                if let Some(k) = kb {
                    if k < m {
                        return bin(Ult, a, cst(w, k + 1));
                    }
                }
                if let Some(k) = ka {
                    if k > 0 {
                        return bin(Ult, cst(w, k - 1), b);
                    }
                }
            }
            if w == 1 {
                // a<b == !a & b ; a<=b == !a | b
                return if op == Ult { bin(And, not(a), b) } else { bin(Or, not(a), b) };
            }
            if let Some(k) = kb {
                if na.op == ZExt {
                    let iw = width(Ex(na.a));
                    if k <= mask(iw) {
                        return bin(op, Ex(na.a), cst(iw, k));
                    }
                }
                if ite_leafy(&na) {
                    return ite(Ex(na.a), bin(op, Ex(na.b), b), bin(op, Ex(na.c), b));
                }
                if na.op == Concat && op == Ult {
                    let lw = width(Ex(na.b));
                    if k & mask(lw) == 0 {
                        return bin(Ult, Ex(na.a), cst(w - lw, k >> lw));
                    }
                }
            }
            if let Some(k) = ka {
                if nb.op == ZExt {
                    let iw = width(Ex(nb.a));
                    if k <= mask(iw) {
                        return bin(op, cst(iw, k), Ex(nb.a));
                    }
                }
                if ite_leafy(&nb) {
                    return ite(Ex(nb.a), bin(op, a, Ex(nb.b)), bin(op, a, Ex(nb.c)));
                }
            }
            if na.op == ZExt && nb.op == ZExt && width(Ex(na.a)) == width(Ex(nb.a)) {
                return bin(op, Ex(na.a), Ex(nb.a));
            }
        }
        Slt | Sle => {
            if a == b {
                return if op == Slt { FALSE } else { TRUE };
            }
            let half = 1u128 << (w - 1);
            let (la, ha) = urange(a);
            let (lb, hb) = urange(b);
            // same known sign: unsigned comparison
            let sa = if ha < half {
                Some(false)
            } else if la >= half {
                Some(true)
            } else {
                None
            };
            let sb = if hb < half {
                Some(false)
            } else if lb >= half {
                Some(true)
            } else {
                None
            };
            match (sa, sb) {
                (Some(x), Some(y)) if x == y => {
                    return bin(if op == Slt { Ult } else { Ule }, a, b)
                }
                (Some(true), Some(false)) => return TRUE,
                (Some(false), Some(true)) => return FALSE,
                _ => {}
            }
            if w > 1 {
                if op == Slt && kb == Some(0) {
                    return extract(a, w - 1, w - 1);
                }
                if op == Sle && ka == Some(0) {
                    return not(extract(b, w - 1, w - 1));
                }
                // -1 < x
                if op == Slt && ka == Some(m) {
                    return not(extract(b, w - 1, w - 1));
                }
            }
            if kb.is_some() && ite_leafy(&na) {
                return ite(Ex(na.a), bin(op, Ex(na.b), b), bin(op, Ex(na.c), b));
            }
            if ka.is_some() && ite_leafy(&nb) {
                return ite(Ex(nb.a), bin(op, a, Ex(nb.b)), bin(op, a, Ex(nb.c)));
            }
        }
        _ => {}
    }
    if kb.is_some() && ite_leafy(&na) && matches!(op, Add | And | Or | Xor | Mul | UDiv | URem) {
        return ite(Ex(na.a), bin(op, Ex(na.b), b), bin(op, Ex(na.c), b));
    }
    n2(op, rw, a, b)
}

fn is_not(a: Ex, b: Ex) -> bool {
    not(a) == b
}

fn absorb(op: Op, a: Ex, b: Ex) -> Option<Ex> {
    let nb = ar().node(b);
    if nb.op == op && (nb.a == a.0 || nb.b == a.0) {
        return Some(b);
    }
    let dual = if op == And { Or } else { And };
    if nb.op == dual && (nb.a == a.0 || nb.b == a.0) {
        return Some(a);
    }
    None
}

/// `a | b` where the two have non-overlapping bit fields (zext / concat-with-zero shapes).
fn or_fields(a: Ex, b: Ex) -> Option<Ex> {
    let w = width(a);
    // b = concat(x, 0_k), a < 2^k   (or the other way round)
    for (a, b) in [(a, b), (b, a)] {
        let nb = ar().node(b);
        if nb.op == Concat && konst(Ex(nb.b)) == Some(0) {
            let k = width(Ex(nb.b));
            if urange(a).1 <= mask(k) {
                return Some(concat(Ex(nb.a), extract(a, k - 1, 0)));
            }
            // a also splits at k
            let na = ar().node(a);
            if na.op == Concat && width(Ex(na.b)) == k {
                return Some(concat(bin(Or, Ex(na.a), Ex(nb.a)), Ex(na.b)));
            }
        }
        if let Some(kv) = konst(b) {
            let na = ar().node(a);
            if na.op == Concat {
                let lw = width(Ex(na.b));
                return Some(concat(
                    bin(Or, Ex(na.a), cst(w - lw, kv >> lw)),
                    bin(Or, Ex(na.b), cst(lw, kv)),
                ));
            }
        }
    }
    None
}

pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex {
    if a == b || c == TRUE {
        return a;
    }
    if c == FALSE {
        return b;
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let nc = ar().node(c);
    if nc.op == Xor && konst(Ex(nc.b)) == Some(1) {
        return ite(Ex(nc.a), b, a);
    }
    if w == 1 {
        if a == TRUE {
            return bin(Or, c, b);
        }
        if a == FALSE {
            return bin(And, not(c), b);
        }
        if b == TRUE {
            return bin(Or, not(c), a);
        }
        if b == FALSE {
            return bin(And, c, a);
        }
    }
    let na = ar().node(a);
    let nb = ar().node(b);
    if nb.op == Ite && nb.a == c.0 {
        return ite(c, a, Ex(nb.c));
    }
    if na.op == Ite && na.a == c.0 {
        return ite(c, Ex(na.b), b);
    }
    if nb.op == Ite && nb.b == a.0 {
        return ite(bin(Or, c, Ex(nb.a)), a, Ex(nb.c));
    }
    ar().raw(Node { op: Ite, w: w as u16, a: c.0, b: a.0, c: b.0, k: 0 })
}

/// `hi : lo`
pub fn concat(hi: Ex, lo: Ex) -> Ex {
    let (wh, wl) = (width(hi), width(lo));
    let w = wh + wl;
    if let (Some(x), Some(y)) = (konst(hi), konst(lo)) {
        return cst(w, (x << wl) | y);
    }
    if konst(hi) == Some(0) {
        return zext(lo, w);
    }
    let nh = ar().node(hi);
    let nl = ar().node(lo);
    // adjacent extracts of the same value
    if nh.op == Extract && nl.op == Extract && nh.a == nl.a && nh.b == nl.b + wl {
        return extract(Ex(nh.a), nh.b + wh - 1, nl.b);
    }
    if nh.op == Extract && nl.op == Concat {
        // hi : (mid : lo)
        let nm = ar().node(Ex(nl.a));
        if nm.op == Extract && nm.a == nh.a && nh.b == nm.b + nm.w as u32 {
            return concat(extract(Ex(nh.a), nh.b + wh - 1, nm.b), Ex(nl.b));
        }
    }
    if nh.op == ZExt {
        // 0..0 x : lo  -> zext(x : lo)
        return zext(concat(Ex(nh.a), lo), w);
    }
    if nh.op == Concat {
        // right associate
        return concat(Ex(nh.a), concat(Ex(nh.b), lo));
    }
    n2(Concat, w, hi, lo)
}

pub fn extract(a: Ex, hi: u32, lo: u32) -> Ex {
    let aw = width(a);
    let w = hi - lo + 1;
    debug_assert!(hi < aw);
    if w == aw {
        return a;
    }
    let n = ar().node(a);
    match n.op {
        Const => return cst(w, n.k >> lo),
        Extract => return extract(Ex(n.a), n.b + hi, n.b + lo),
        Concat => {
            let lw = width(Ex(n.b));
            if hi < lw {
                return extract(Ex(n.b), hi, lo);
            }
            if lo >= lw {
                return extract(Ex(n.a), hi - lw, lo - lw);
            }
            return concat(extract(Ex(n.a), hi - lw, 0), extract(Ex(n.b), lw - 1, lo));
        }
        ZExt => {
            let iw = width(Ex(n.a));
            if lo >= iw {
                return cst(w, 0);
            }
            if hi < iw {
                return extract(Ex(n.a), hi, lo);
            }
            return zext(extract(Ex(n.a), iw - 1, lo), w);
        }
        SExt => {
            let iw = width(Ex(n.a));
            if hi < iw {
                return extract(Ex(n.a), hi, lo);
            }
            if lo < iw {
                return sext(extract(Ex(n.a), iw - 1, lo), w);
            }
            return sext(extract(Ex(n.a), iw - 1, iw - 1), w);
        }
        Ite if ite_leafy(&n) || w == 1 => {
            return ite(Ex(n.a), extract(Ex(n.b), hi, lo), extract(Ex(n.c), hi, lo))
        }
        And | Or | Xor => {
            if n.op == Xor || konst(Ex(n.b)).is_some() || w == 1 {
                return bin(n.op, extract(Ex(n.a), hi, lo), extract(Ex(n.b), hi, lo));
            }
        }
        Add | Sub | Mul if lo == 0 && w >= 8 => {
            return bin(n.op, extract(Ex(n.a), hi, 0), extract(Ex(n.b), hi, 0));
        }
        _ => {}
    }
    if urange(a).1 < (1u128 << lo) {
        return cst(w, 0);
    }
    ar().raw(Node { op: Extract, w: w as u16, a: a.0, b: lo, c: 0, k: 0 })
}

pub fn zext(a: Ex, w: u32) -> Ex {
    let aw = width(a);
    if aw == w {
        return a;
    }
    debug_assert!(w > aw);
    let n = ar().node(a);
    match n.op {
        Const => return cst(w, n.k),
        ZExt => return zext(Ex(n.a), w),
        Ite if ite_leafy(&n) => return ite(Ex(n.a), zext(Ex(n.b), w), zext(Ex(n.c), w)),
        _ => {}
    }
    ar().raw(Node { op: ZExt, w: w as u16, a: a.0, b: 0, c: 0, k: 0 })
}

pub fn sext(a: Ex, w: u32) -> Ex {
    let aw = width(a);
    if aw == w {
        return a;
    }
    let n = ar().node(a);
    match n.op {
        Const => return cst(w, sext128(n.k, aw) as u128),
        ZExt => return zext(Ex(n.a), w),
        SExt => return sext(Ex(n.a), w),
        Ite if ite_leafy(&n) => return ite(Ex(n.a), sext(Ex(n.b), w), sext(Ex(n.c), w)),
        _ => {}
    }
    if urange(a).1 < (1u128 << (aw - 1)) {
        return zext(a, w);
    }
    if aw == 1 {
        return ite(a, cst(w, u128::MAX), cst(w, 0));
    }
    ar().raw(Node { op: SExt, w: w as u16, a: a.0, b: 0, c: 0, k: 0 })
}

// ---------------------------------------------------------------------------------- evaluation

pub type Assign = FxMap<u32, u128>;

/// Start a new evaluation epoch (new assignment).
fn bump() -> u32 {
    let a = ar();
    a.epoch = a.epoch.wrapping_add(1);
    if a.epoch == 0 {
        a.memo_ep.iter_mut().for_each(|x| *x = 0);
        a.epoch = 1;
    }
    a.epoch
}

pub fn eval(e: Ex, m: &Assign) -> u128 {
    if let Some(k) = konst(e) {
        return k;
    }
    let ep = bump();
    eval_rec(e.0, &|v| m.get(&v).copied().unwrap_or(0), ep)
}

/// Evaluates several expressions under one assignment, sharing the memo table.
pub fn eval_all(es: &[Ex], m: &Assign) -> Vec<u128> {
    let ep = bump();
    es.iter()
        .map(|e| eval_rec(e.0, &|v| m.get(&v).copied().unwrap_or(0), ep))
        .collect()
}

fn eval_rec(i: u32, f: &dyn Fn(u32) -> u128, ep: u32) -> u128 {
    let a = ar();
    let iu = i as usize;
    let n = a.nodes[iu];
    if n.op == Const {
        return n.k;
    }
    if a.memo_ep[iu] == ep {
        return a.memo[iu];
    }
    let w = n.w as u32;
    let r = match n.op {
        Const => unreachable!(),
        Var => f(n.a) & mask(w),
        Ite => {
            if eval_rec(n.a, f, ep) != 0 {
                eval_rec(n.b, f, ep)
            } else {
                eval_rec(n.c, f, ep)
            }
        }
        Concat => {
            let wl = a.nodes[n.b as usize].w as u32;
            (eval_rec(n.a, f, ep) << wl) | eval_rec(n.b, f, ep)
        }
        Extract => (eval_rec(n.a, f, ep) >> n.b) & mask(w),
        ZExt => eval_rec(n.a, f, ep),
        SExt => {
            let iw = a.nodes[n.a as usize].w as u32;
            (sext128(eval_rec(n.a, f, ep), iw) as u128) & mask(w)
        }
        op => {
            let ow = a.nodes[n.a as usize].w as u32;
            let x = eval_rec(n.a, f, ep);
            if w == 1 && op == And && x == 0 {
                0
            } else {
                let y = eval_rec(n.b, f, ep);
                fold(op, ow, x, y)
            }
        }
    };
    let a = ar();
    a.memo[iu] = r;
    a.memo_ep[iu] = ep;
    r
}

/// Truth table of a width-1 expression over a single variable of at most 8 bits.
pub fn table(e: Ex) -> Option<(u32, [u64; 4])> {
    let v = vars_of(e);
    if v.len() != 1 {
        return None;
    }
    let v = v[0];
    let vw = ar().var_w[v as usize];
    if vw == 0 || vw > 8 {
        return None;
    }
    if let Some(t) = ar().tables.get(&e.0) {
        return Some((v, *t));
    }
    let mut t = [0u64; 4];
    for x in 0..(1usize << vw) {
        let ep = bump();
        if eval_rec(e.0, &|_| x as u128, ep) != 0 {
            t[x / 64] |= 1 << (x % 64);
        }
    }
    ar().tables.insert(e.0, t);
    Some((v, t))
}

pub fn show(e: Ex) -> String {
    fn go(e: u32, d: u32, out: &mut String) {
        let n = ar().nodes[e as usize];
        match n.op {
            Const => out.push_str(&format!("{}", n.k)),
            Var => out.push_str(&format!("v{}:{}", n.a, n.w)),
            _ if d == 0 => out.push('…'),
            Extract => {
                out.push_str(&format!("[{}+{}](", n.b, n.w));
                go(n.a, d - 1, out);
                out.push(')');
            }
            ZExt | SExt => {
                out.push_str(if n.op == ZExt { "z(" } else { "s(" });
                go(n.a, d - 1, out);
                out.push(')');
            }
            Ite => {
                out.push_str("ite(");
                go(n.a, d - 1, out);
                out.push_str(", ");
                go(n.b, d - 1, out);
                out.push_str(", ");
                go(n.c, d - 1, out);
                out.push(')');
            }
            _ => {
                out.push_str(&format!("{:?}(", n.op));
                go(n.a, d - 1, out);
                out.push_str(", ");
                go(n.b, d - 1, out);
                out.push(')');
            }
        }
    }
    let mut s = String::new();
    go(e.0, 8, &mut s);
    s
}
