//! The symbolic executor: states, memory access, instruction semantics, forking.

use crate::expr::{self, *};
use crate::ir::*;
use crate::mem::*;
use crate::pc::*;
use std::rc::Rc;
use std::time::Instant;

pub const HEAP_BASE: u64 = 0x0100_0000;
pub const STACK_BASE: u64 = 0x0F00_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub stack_base: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Heap,
    pub stack: Vec<Rc<Obj>>,
    pub globals: Rc<FxMap<u32, Rc<Obj>>>,
    pub pc: Pc,
    pub inputs: Rc<Vec<Ex>>,
    pub logs: Rc<Vec<Ex>>,
    pub instrs: u64,
    pub reach: [u64; 2],
    pub depth: u32,
    pub clock: u64,
}

#[derive(Debug, Clone)]
pub enum End {
    /// The harness returned.
    Done,
    /// `sym_assume` of something impossible.
    Killed,
    /// Something that must not happen did.
    Violation(String),
    /// The engine cannot continue (unsupported construct, solver gave up).
    Error(String),
    /// Instruction budget of the path used up.
    Budget,
}

pub type Res<T> = Result<T, Box<End>>;

pub fn err<T>(s: impl Into<String>) -> Res<T> {
    Err(Box::new(End::Error(s.into())))
}
pub fn viol<T>(s: impl Into<String>) -> Res<T> {
    Err(Box::new(End::Violation(s.into())))
}

pub struct Violation {
    pub msg: String,
    pub inputs: Vec<(u32, u128)>,
    pub trace: Vec<String>,
    pub budget: bool,
}

pub struct Sample {
    pub inputs: Vec<(u32, u128)>,
    pub logs: Vec<u64>,
}

pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub reach: [u64; 128],
    pub max_depth: u32,
    pub max_path_instrs: u64,
    pub max_inputs: u32,
    pub max_objs: u32,
}

pub struct Exec {
    pub w: World,
    pub s: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub sample_every: u64,
    pub max_samples: usize,
    pub max_instr: u64,
    pub cov: Vec<Option<Box<[bool]>>>,
    pub hooks: Vec<crate::hooks::Hook>,
    pub trace: bool,
    pub t0: Instant,
    pub assert_msgs: FxMap<String, u64>,
    pub known: Vec<String>,
    pub known_hits: FxMap<String, Violation>,
}

#[inline]
pub fn from_ex(e: Ex) -> Val {
    match konst(e) {
        Some(k) => {
            if width(e) > 64 {
                Val::W(Rc::new(k))
            } else {
                Val::I(k as u64)
            }
        }
        None => Val::S(e),
    }
}
#[inline]
pub fn to_ex(v: &Val, w: u32) -> Ex {
    match v {
        Val::I(x) => cst(w, *x as u128),
        Val::W(x) => cst(w, **x),
        Val::S(e) => {
            debug_assert_eq!(width(*e), w);
            *e
        }
        Val::A(_) => panic!("aggregate where a scalar was expected"),
    }
}
#[inline]
fn conc(v: &Val) -> Option<u128> {
    match v {
        Val::I(x) => Some(*x as u128),
        Val::W(x) => Some(**x),
        _ => None,
    }
}
#[inline]
pub fn mkc(w: u32, x: u128) -> Val {
    if w > 64 {
        Val::W(Rc::new(x & mask(w)))
    } else {
        Val::I((x & mask(w)) as u64)
    }
}

fn pred_op(p: Pred, a: Ex, b: Ex) -> Ex {
    match p {
        Pred::Eq => bin(Op::Eq, a, b),
        Pred::Ne => not(bin(Op::Eq, a, b)),
        Pred::Ult => bin(Op::Ult, a, b),
        Pred::Ule => bin(Op::Ule, a, b),
        Pred::Ugt => bin(Op::Ult, b, a),
        Pred::Uge => bin(Op::Ule, b, a),
        Pred::Slt => bin(Op::Slt, a, b),
        Pred::Sle => bin(Op::Sle, a, b),
        Pred::Sgt => bin(Op::Slt, b, a),
        Pred::Sge => bin(Op::Sle, b, a),
    }
}
#[inline]
fn pred_c(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        _ => {
            let s = 64 - w;
            let (x, y) = (((a << s) as i64) >> s, ((b << s) as i64) >> s);
            match p {
                Pred::Slt => x < y,
                Pred::Sle => x <= y,
                Pred::Sgt => x > y,
                _ => x >= y,
            }
        }
    }
}

pub fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        return Val::I(pred_c(p, w, *x, *y) as u64);
    }
    from_ex(pred_op(p, to_ex(a, w), to_ex(b, w)))
}

pub fn binop(op: Op, w: u32, a: &Val, b: &Val) -> Res<Val> {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let m = mask(w) as u64;
            let r = match op {
                Op::Add => x.wrapping_add(y) & m,
                Op::Sub => x.wrapping_sub(y) & m,
                Op::Mul => x.wrapping_mul(y) & m,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => {
                    return viol("division by zero")
                }
                Op::UDiv => x / y,
                Op::URem => x % y,
                Op::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                Op::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => fold(op, w, x as u128, y as u128) as u64,
            };
            return Ok(Val::I(r));
        }
    }
    Ok(from_ex(bin(op, to_ex(a, w), to_ex(b, w))))
}

impl Exec {
    pub fn new_state(&mut self, entry: u32) -> Result<State, String> {
        let f = self.w.func(entry)?;
        Ok(State {
            frames: vec![Rc::new(Frame {
                f,
                regs: vec![Val::I(0); f.nregs as usize],
                bb: 0,
                ip: 0,
                stack_base: 0,
            })],
            heap: Default::default(),
            stack: vec![],
            globals: Default::default(),
            pc: Default::default(),
            inputs: Default::default(),
            logs: Default::default(),
            instrs: 0,
            reach: [0; 2],
            depth: 0,
            clock: 0,
        })
    }

    // -------------------------------------------------------------------------- decisions

    /// Decides `c` on this path, forking when both outcomes are possible. Must be called before
    /// the current instruction changes the state: the forked state executes it again.
    pub fn decide(&mut self, st: &mut State, c: Ex) -> Res<bool> {
        if let Some(k) = konst(c) {
            return Ok(k == 1);
        }
        let t = self.s.feasible(&st.pc, c).map_err(|e| Box::new(End::Error(e)))?;
        let nc = not(c);
        if t.is_none() {
            return Ok(false);
        }
        let f = self.s.feasible(&st.pc, nc).map_err(|e| Box::new(End::Error(e)))?;
        match (t, f) {
            (Some(ta), Some(fa)) => {
                self.stats.forks += 1;
                let mut o = st.clone();
                o.depth += 1;
                self.s.add(&mut o.pc, nc, &fa);
                self.work.push(o);
                st.depth += 1;
                self.s.add(&mut st.pc, c, &ta);
                Ok(true)
            }
            _ => Ok(true),
        }
    }

    /// A concrete value for `e`, forking over the alternatives.
    pub fn concretize(&mut self, st: &mut State, e: Ex) -> Res<u128> {
        if let Some(k) = self.s.known(&st.pc, e) {
            return Ok(k);
        }
        let v = eval(e, &st.pc.model);
        let c = eq(e, cst(width(e), v));
        loop {
            if self.decide(st, c)? {
                Rc::make_mut(&mut st.pc.fixed).insert(e, v);
                return Ok(v);
            }
            // the model satisfies the path condition, so e == v was feasible
            return err("concretize: model disagrees with the solver");
        }
    }
    pub fn cv(&mut self, st: &mut State, v: &Val) -> Res<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => Ok(self.concretize(st, *e)? as u64),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => err("aggregate where an integer was expected"),
        }
    }

    // ----------------------------------------------------------------------------- memory

    fn obj_ptr(&mut self, st: &State, id: u64) -> Option<*const Obj> {
        if id >= GL_BASE {
            if id >= FN_BASE {
                return None;
            }
            let g = (id - GL_BASE) as u32;
            if let Some(o) = st.globals.get(&g) {
                return Some(&**o);
            }
            if g as usize >= self.w.gs.len() {
                return None;
            }
            if let Some(o) = &self.w.gs[g as usize].init {
                return Some(&**o);
            }
            let o = self.w.global(g);
            return Some(&*o); // kept alive by the cache in `World`
        }
        if id >= STACK_BASE {
            return st.stack.get((id - STACK_BASE) as usize).map(|o| &**o as *const Obj);
        }
        if id >= HEAP_BASE {
            return st.heap.get((id - HEAP_BASE) as u32).map(|o| &**o as *const Obj);
        }
        None
    }

    pub fn at(&mut self, st: &State, addr: u64, n: u64) -> Res<(&'static Obj, usize)> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        match self.obj_ptr(st, id) {
            Some(p) => {
                let o: &'static Obj = unsafe { &*p };
                if off + n > o.data.len() as u64 {
                    return viol(format!(
                        "memory error: access of {n} bytes at offset {off} of an object of {} bytes",
                        o.data.len()
                    ));
                }
                Ok((o, off as usize))
            }
            None if id >= FN_BASE => {
                let n = self.w.fns.get((id - FN_BASE) as usize).map(|f| f.name).unwrap_or("?");
                err(format!("access to code or undefined symbol {n}"))
            }
            None => viol(format!("memory error: access to invalid or freed address {addr:#x}")),
        }
    }

    pub fn at_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> Res<(&'a mut Obj, usize)> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        let o: Option<&'a mut Obj> = if id >= GL_BASE {
            if id >= FN_BASE {
                None
            } else {
                let g = (id - GL_BASE) as u32;
                if !st.globals.contains_key(&g) {
                    let o = self.w.global(g);
                    if o.kind == Kind::Constant {
                        return viol("memory error: write to constant memory");
                    }
                    Rc::make_mut(&mut st.globals).insert(g, o);
                }
                Rc::make_mut(&mut st.globals).get_mut(&g).map(Rc::make_mut)
            }
        } else if id >= STACK_BASE {
            st.stack.get_mut((id - STACK_BASE) as usize).map(Rc::make_mut)
        } else if id >= HEAP_BASE {
            st.heap.get_mut((id - HEAP_BASE) as u32)
        } else {
            None
        };
        match o {
            Some(o) => {
                if off + n > o.data.len() as u64 {
                    return viol(format!(
                        "memory error: write of {n} bytes at offset {off} of an object of {} bytes",
                        o.data.len()
                    ));
                }
                Ok((o, off as usize))
            }
            None if id >= FN_BASE => {
                let n = self.w.fns.get((id - FN_BASE) as usize).map(|f| f.name).unwrap_or("?");
                err(format!("write to code or undefined symbol {n}"))
            }
            None => viol(format!("memory error: write to invalid or freed address {addr:#x}")),
        }
    }

    pub fn malloc(&mut self, st: &mut State, size: u64, align: u64) -> Res<u64> {
        if size > 64 << 30 {
            return viol(format!("memory error: allocation of {size} bytes"));
        }
        if size > 64 << 20 {
            return err(format!("allocation of {size} bytes"));
        }
        let id = st.heap.alloc(Obj::new(size as usize, Kind::Heap, align as u32));
        if HEAP_BASE + id as u64 >= STACK_BASE {
            return err("too many heap objects");
        }
        Ok((HEAP_BASE + id as u64) << 32)
    }
    pub fn free(&mut self, st: &mut State, addr: u64) -> Res<()> {
        let id = addr >> 32;
        if addr & 0xffff_ffff != 0 || id < HEAP_BASE || id >= STACK_BASE {
            return viol(format!("memory error: bad free of {addr:#x}"));
        }
        if !st.heap.free((id - HEAP_BASE) as u32) {
            return viol(format!("memory error: double free of {addr:#x}"));
        }
        Ok(())
    }

    pub fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> Res<Vec<Ex>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.at(st, addr, n)?;
        Ok((0..n as usize).map(|i| o.byte(off + i)).collect())
    }
    pub fn read_str(&mut self, st: &State, addr: u64, n: u64) -> String {
        match self.at(st, addr, n) {
            Ok((o, off)) => String::from_utf8_lossy(&o.data[off..off + n as usize]).to_string(),
            Err(_) => String::from("?"),
        }
    }

    fn load_sc(&mut self, st: &State, addr: u64, w: u32) -> Res<Val> {
        let n = (w as usize + 7) / 8;
        let (o, off) = self.at(st, addr, n as u64)?;
        if !o.is_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::I(u64::from_le_bytes(b) & mask(w) as u64));
            }
            if n > 16 {
                return err(format!("load of {w} bits"));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(mkc(w, u128::from_le_bytes(b)));
        }
        if n > 16 {
            return err(format!("load of {w} bits"));
        }
        let e = o.read(off, n);
        Ok(from_ex(if w as usize == n * 8 { e } else { extract(e, w - 1, 0) }))
    }

    pub fn load(&mut self, st: &State, addr: u64, ty: Ty) -> Res<Val> {
        let ti: &'static TyInfo = unsafe { &*(self.w.types.get(ty) as *const TyInfo) };
        match &ti.k {
            TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64 => self.load_sc(st, addr, ti.bits),
            TyK::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load(st, addr + ti.offs[i], *t)?);
                }
                Ok(Val::agg(v))
            }
            TyK::Arr(n, t) => {
                let s = self.w.types.get(*t).size;
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(st, addr + i * s, *t)?);
                }
                Ok(Val::agg(v))
            }
            TyK::Vec(n, t) => {
                let b = self.w.types.get(*t).bits as u64;
                if b % 8 != 0 {
                    return err("load of a vector of odd elements");
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_sc(st, addr + i * b / 8, b as u32)?);
                }
                Ok(Val::agg(v))
            }
            _ => err("load of this type"),
        }
    }

    pub fn store(&mut self, st: &mut State, addr: u64, ty: Ty, v: &Val) -> Res<()> {
        let ti: &'static TyInfo = unsafe { &*(self.w.types.get(ty) as *const TyInfo) };
        match (&ti.k, v) {
            (TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64, _) => {
                let n = ti.store as usize;
                let (o, off) = self.at_mut(st, addr, n as u64)?;
                match v {
                    Val::I(x) => {
                        if n <= 8 {
                            o.write_conc(off, &x.to_le_bytes()[..n])
                        } else {
                            o.write_conc(off, &(*x as u128).to_le_bytes()[..n])
                        }
                    }
                    Val::W(x) => o.write_conc(off, &x.to_le_bytes()[..n]),
                    Val::S(e) => o.write_ex(off, *e, n),
                    Val::A(_) => return err("store of aggregate as scalar"),
                }
                Ok(())
            }
            (TyK::Struct(f, _), Val::A(x)) => {
                for (i, t) in f.iter().enumerate() {
                    self.store(st, addr + ti.offs[i], *t, &x[i])?;
                }
                Ok(())
            }
            (TyK::Arr(_, t), Val::A(x)) => {
                let s = self.w.types.get(*t).size;
                for (i, e) in x.iter().enumerate() {
                    self.store(st, addr + i as u64 * s, *t, e)?;
                }
                Ok(())
            }
            (TyK::Vec(_, t), Val::A(x)) => {
                let b = self.w.types.get(*t).bits as u64;
                if b % 8 != 0 {
                    return err("store of a vector of odd elements");
                }
                for (i, e) in x.iter().enumerate() {
                    self.store(st, addr + i as u64 * b / 8, *t, e)?;
                }
                Ok(())
            }
            _ => err("store of this type"),
        }
    }

    /// Load through a symbolic address.
    fn load_symaddr(&mut self, st: &mut State, e: Ex, ty: Ty) -> Res<Val> {
        if let Some(k) = self.s.known(&st.pc, e) {
            return self.load(st, k as u64, ty);
        }
        let bits = self.w.types.get(ty).bits;
        if bits != 0 && bits <= 128 {
            if let Some((var, vals)) = self.s.byte_values(&st.pc, e) {
                let mut groups: Vec<(Ex, Vec<u8>)> = vec![];
                let mut ok = true;
                let mut byaddr: FxMap<u64, usize> = Default::default();
                for (x, a) in vals {
                    if let Some(g) = byaddr.get(&(a as u64)) {
                        groups[*g].1.push(x);
                        continue;
                    }
                    match self.load_sc(st, a as u64, bits) {
                        Ok(v) => {
                            let ve = to_ex(&v, bits);
                            let g = match groups.iter().position(|g| g.0 == ve) {
                                Some(g) => {
                                    groups[g].1.push(x);
                                    g
                                }
                                None => {
                                    groups.push((ve, vec![x]));
                                    groups.len() - 1
                                }
                            };
                            byaddr.insert(a as u64, g);
                        }
                        Err(_) => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    // largest group last, as the default
                    groups.sort_by_key(|g| g.1.len());
                    let (mut r, _) = groups.pop().unwrap();
                    for (v, xs) in groups.iter().rev() {
                        let c = self.s.dom_of_set(var, xs);
                        r = ite(c, *v, r);
                    }
                    return Ok(from_ex(r));
                }
            }
        }
        let a = self.concretize(st, e)?;
        self.load(st, a as u64, ty)
    }

    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Res<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let (o, off) = self.at(st, src, n)?;
        let n = n as usize;
        if o.is_sym(off, n) {
            let d: Vec<u8> = o.data[off..off + n].to_vec();
            let s: Vec<u32> = o.sym.as_ref().unwrap()[off..off + n].to_vec();
            let (o, off) = self.at_mut(st, dst, n as u64)?;
            o.data[off..off + n].copy_from_slice(&d);
            let len = o.data.len();
            o.sym.get_or_insert_with(|| vec![0; len])[off..off + n].copy_from_slice(&s);
        } else {
            let d: Vec<u8> = o.data[off..off + n].to_vec();
            let (o, off) = self.at_mut(st, dst, n as u64)?;
            o.write_conc(off, &d);
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------ running

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(24).map(|f| f.f.name.to_string()).collect()
    }

    pub fn mark(&mut self, f: &'static Func, bb: u32) {
        let i = f.slot as usize;
        if self.cov.len() <= i {
            self.cov.resize_with(self.w.fns.len().max(i + 1), || None);
        }
        self.cov[i].get_or_insert_with(|| vec![false; f.blocks.len()].into_boxed_slice())
            [bb as usize] = true;
    }

    fn jump(&mut self, st: &mut State, to: u32) -> Res<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let f = fr.f;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, src) = &b.phis[0];
                let o = match src.iter().find(|x| x.0 == from) {
                    Some((_, o)) => o,
                    None => return err("phi without a value for the edge"),
                };
                let v = match o {
                    Opnd::R(r) => fr.regs[*r as usize].clone(),
                    Opnd::C(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            } else {
                let mut tmp = Vec::with_capacity(b.phis.len());
                for (d, src) in &b.phis {
                    let o = match src.iter().find(|x| x.0 == from) {
                        Some((_, o)) => o,
                        None => return err("phi without a value for the edge"),
                    };
                    let v = match o {
                        Opnd::R(r) => fr.regs[*r as usize].clone(),
                        Opnd::C(v) => v.clone(),
                    };
                    tmp.push((*d, v));
                }
                for (d, v) in tmp {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.bb = to;
        fr.ip = 0;
        self.mark(f, to);
        Ok(())
    }

    pub fn push_call(&mut self, st: &mut State, f: &'static Func, args: &[Val]) -> Res<()> {
        if st.frames.len() > 4000 {
            return viol("stack overflow: more than 4000 frames");
        }
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if i < args.len() {
                if f.byval[i] != 0 {
                    return err("byval argument");
                }
                regs[*p as usize] = args[i].clone();
            }
        }
        st.frames.push(Rc::new(Frame { f, regs, bb: 0, ip: 0, stack_base: st.stack.len() as u32 }));
        self.mark(f, 0);
        Ok(())
    }

    pub fn run(&mut self, mut st: State) -> (State, End) {
        loop {
            match self.step_many(&mut st) {
                Ok(()) => {}
                Err(e) => return (st, *e),
            }
        }
    }

    fn step_many(&mut self, st: &mut State) -> Res<()> {
        for _ in 0..4096 {
            st.instrs += 1;
            self.stats.instrs += 1;
            self.step(st)?;
        }
        if st.instrs > self.max_instr {
            return Err(Box::new(End::Budget));
        }
        Ok(())
    }

    #[inline]
    fn get(fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => fr.regs[*r as usize].clone(),
            Opnd::C(v) => v.clone(),
        }
    }

    fn set(st: &mut State, dst: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[dst as usize] = v;
        fr.ip += 1;
    }
    fn next(st: &mut State) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.ip += 1;
    }

    /// Finish a call instruction with result `v`.
    pub fn finish_call(&mut self, st: &mut State, v: Option<Val>) -> Res<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        match &fr.f.blocks[fr.bb as usize].ins[fr.ip as usize] {
            Ins::Call { dst, next, .. } => {
                if let (Some(d), Some(v)) = (dst, v) {
                    fr.regs[*d as usize] = v;
                }
                match next {
                    Some(n) => {
                        let n = *n;
                        self.jump(st, n)
                    }
                    None => {
                        fr.ip += 1;
                        Ok(())
                    }
                }
            }
            _ => err("return to a non-call instruction"),
        }
    }

    fn step(&mut self, st: &mut State) -> Res<()> {
        let fr: &Frame = st.frames.last().unwrap();
        let f = fr.f;
        let ins: &'static Ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        match ins {
            Ins::Bin { op, w, lanes, dst, a, b } => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let r = if *lanes == 0 {
                    match (op, &y) {
                        (Op::UDiv | Op::URem | Op::SDiv | Op::SRem, Val::S(e)) => {
                            let e = *e;
                            let z = eq(e, cst(*w, 0));
                            if self.decide(st, z)? {
                                return viol("division by zero");
                            }
                        }
                        _ => {}
                    }
                    binop(*op, *w, &x, &y)?
                } else {
                    match (&x, &y) {
                        (Val::A(x), Val::A(y)) => {
                            let mut v = Vec::with_capacity(x.len());
                            for (p, q) in x.iter().zip(y.iter()) {
                                v.push(binop(*op, *w, p, q)?);
                            }
                            Val::agg(v)
                        }
                        _ => return err("vector operands"),
                    }
                };
                Self::set(st, *dst, r);
            }
            Ins::ICmp { p, w, lanes, dst, a, b } => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let r = if *lanes == 0 {
                    icmp(*p, *w, &x, &y)
                } else {
                    match (&x, &y) {
                        (Val::A(x), Val::A(y)) => Val::agg(
                            x.iter().zip(y.iter()).map(|(c, d)| icmp(*p, *w, c, d)).collect(),
                        ),
                        _ => return err("vector operands"),
                    }
                };
                Self::set(st, *dst, r);
            }
            Ins::Load { dst, ty, ptr } => {
                let p = Self::get(fr, ptr);
                let v = match p {
                    Val::I(a) => self.load(st, a, *ty)?,
                    Val::S(e) => self.load_symaddr(st, e, *ty)?,
                    _ => return err("load address"),
                };
                Self::set(st, *dst, v);
            }
            Ins::Store { ty, val, ptr } => {
                let v = Self::get(fr, val);
                let p = Self::get(fr, ptr);
                let a = self.cv(st, &p)?;
                self.store(st, a, *ty, &v)?;
                Self::next(st);
            }
            Ins::Gep { dst, base, off, idx } => {
                let b = Self::get(fr, base);
                let mut acc: u64 = *off;
                let mut sym: Option<Ex> = None;
                match b {
                    Val::I(x) => acc = acc.wrapping_add(x),
                    Val::S(e) => sym = Some(e),
                    _ => return err("gep base"),
                }
                for (o, w, s) in idx {
                    match Self::get(fr, o) {
                        Val::I(x) => {
                            let sh = 64 - *w;
                            let x = (((x << sh) as i64) >> sh) as u64;
                            acc = acc.wrapping_add(x.wrapping_mul(*s));
                        }
                        Val::S(e) => {
                            let x = if *w < 64 { sext(e, 64) } else { e };
                            let x = bin(Op::Mul, x, cst(64, *s as u128));
                            sym = Some(match sym {
                                None => x,
                                Some(y) => bin(Op::Add, y, x),
                            });
                        }
                        _ => return err("gep index"),
                    }
                }
                let r = match sym {
                    None => Val::I(acc),
                    Some(e) => from_ex(bin(Op::Add, e, cst(64, acc as u128))),
                };
                Self::set(st, *dst, r);
            }
            Ins::Br(t) => self.jump(st, *t)?,
            Ins::CondBr { c, t, f } => {
                let v = Self::get(fr, c);
                let b = match v {
                    Val::I(x) => x != 0,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return err("branch condition"),
                };
                self.jump(st, if b { *t } else { *f })?;
            }
            Ins::Switch { v, w, def, cases, map } => {
                let x = Self::get(fr, v);
                let t = match x {
                    Val::I(x) => *map.get(&x).unwrap_or(def),
                    Val::W(x) => cases.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*def),
                    Val::S(e) => {
                        let mut groups: Vec<(u32, Ex)> = vec![];
                        for (k, t) in cases {
                            if *t == *def {
                                continue;
                            }
                            let c = eq(e, cst(*w, *k));
                            if c == FALSE {
                                continue;
                            }
                            match groups.iter_mut().find(|g| g.0 == *t) {
                                Some(g) => g.1 = or1(g.1, c),
                                None => groups.push((*t, c)),
                            }
                        }
                        let mut r = *def;
                        for (t, c) in groups {
                            if self.decide(st, c)? {
                                r = t;
                                break;
                            }
                        }
                        r
                    }
                    _ => return err("switch operand"),
                };
                self.jump(st, t)?;
            }
            Ins::Mov { dst, a } => {
                let v = Self::get(fr, a);
                Self::set(st, *dst, v);
            }
            Ins::Cast { k, from, to, dst, a } => {
                let x = Self::get(fr, a);
                let r = self.cast(st, *k, *from, *to, x)?;
                Self::set(st, *dst, r);
            }
            Ins::Select { dst, ty, clanes, c, a, b } => {
                let c = Self::get(fr, c);
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let r = if *clanes == 0 {
                    match c {
                        Val::I(0) => y,
                        Val::I(_) => x,
                        Val::S(e) => match self.sel(e, *ty, &x, &y) {
                            Some(v) => v,
                            None => {
                                if self.decide(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            }
                        },
                        _ => return err("select condition"),
                    }
                } else {
                    match (c, x, y) {
                        (Val::A(c), Val::A(x), Val::A(y)) => {
                            let et = match self.w.types.get(*ty).k {
                                TyK::Vec(_, t) => t,
                                _ => return err("select"),
                            };
                            let mut v = vec![];
                            for i in 0..c.len() {
                                v.push(match &c[i] {
                                    Val::I(0) => y[i].clone(),
                                    Val::I(_) => x[i].clone(),
                                    Val::S(e) => self.sel(*e, et, &x[i], &y[i]).unwrap(),
                                    _ => return err("select"),
                                });
                            }
                            Val::agg(v)
                        }
                        _ => return err("vector select"),
                    }
                };
                Self::set(st, *dst, r);
            }
            Ins::Call { callee, args, tys, ret, .. } => {
                let vals: Vec<Val> = args.iter().map(|a| Self::get(fr, a)).collect();
                let slot = match callee {
                    Callee::Sym(s) => *s,
                    Callee::AsmIdent => {
                        let v = vals.into_iter().next();
                        return self.finish_call(st, v);
                    }
                    Callee::Intr(k, name) => {
                        let v = self.intrinsic(st, *k, name, &vals, tys, *ret)?;
                        return self.finish_call(st, v);
                    }
                    Callee::Ind(o) => {
                        let p = Self::get(fr, o);
                        let a = self.cv(st, &p)?;
                        if (a >> 32) < FN_BASE || a & 0xffff_ffff != 0 {
                            return viol(format!("call of a bad function pointer {a:#x}"));
                        }
                        ((a >> 32) - FN_BASE) as u32
                    }
                };
                if slot as usize >= self.w.fns.len() {
                    return viol("call of a bad function pointer");
                }
                if !self.w.fns[slot as usize].hook_known {
                    let h = crate::hooks::lookup(self, slot);
                    self.w.fns[slot as usize].hook = h;
                    self.w.fns[slot as usize].hook_known = true;
                }
                if let Some(h) = self.w.fns[slot as usize].hook {
                    let h = self.hooks[h as usize].f;
                    let v = h(self, st, slot, &vals)?;
                    return self.finish_call(st, v);
                }
                let f = match self.w.func(slot) {
                    Ok(f) => f,
                    Err(e) => return err(e),
                };
                if self.trace {
                    eprintln!("{:width$}{}", "", f.name, width = st.frames.len());
                }
                self.push_call(st, f, &vals)?;
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| Self::get(fr, o));
                let base = fr.stack_base as usize;
                st.frames.pop();
                st.stack.truncate(base);
                if st.frames.is_empty() {
                    return Err(Box::new(End::Done));
                }
                self.finish_call(st, v)?;
            }
            Ins::Unreachable => return viol("reached unreachable code"),
            Ins::Alloca { dst, size, n, align } => {
                let n = Self::get(fr, n);
                let n = self.cv(st, &n)?;
                let id = st.stack.len() as u64;
                st.stack.push(Rc::new(Obj::new((size * n) as usize, Kind::Stack, *align as u32)));
                Self::set(st, *dst, Val::I((STACK_BASE + id) << 32));
            }
            Ins::Extract { dst, a, path } => {
                let mut v = Self::get(fr, a);
                for i in path {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                Self::set(st, *dst, v);
            }
            Ins::Insert { dst, a, v, path } => {
                let mut x = Self::get(fr, a);
                let v = Self::get(fr, v);
                fn ins(x: &mut Val, path: &[u32], v: Val) -> bool {
                    match path.split_first() {
                        None => {
                            *x = v;
                            true
                        }
                        Some((i, rest)) => match x {
                            Val::A(a) => ins(&mut Rc::make_mut(a)[*i as usize], rest, v),
                            _ => false,
                        },
                    }
                }
                if !ins(&mut x, path, v) {
                    return err("insertvalue");
                }
                Self::set(st, *dst, x);
            }
            Ins::Rmw { op, dst, ty, ptr, v } => {
                let p = Self::get(fr, ptr);
                let v = Self::get(fr, v);
                let a = self.cv(st, &p)?;
                let w = self.w.types.get(*ty).bits;
                let old = self.load(st, a, *ty)?;
                let new = match *op {
                    "xchg" => v,
                    "add" => binop(Op::Add, w, &old, &v)?,
                    "sub" => binop(Op::Sub, w, &old, &v)?,
                    "and" => binop(Op::And, w, &old, &v)?,
                    "or" => binop(Op::Or, w, &old, &v)?,
                    "xor" => binop(Op::Xor, w, &old, &v)?,
                    "nand" => {
                        let x = binop(Op::And, w, &old, &v)?;
                        binop(Op::Xor, w, &x, &mkc(w, u128::MAX))?
                    }
                    "umax" | "umin" | "max" | "min" => {
                        let p = match *op {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        match icmp(p, w, &old, &v) {
                            Val::I(0) => v,
                            Val::I(_) => old.clone(),
                            Val::S(e) => from_ex(ite(e, to_ex(&old, w), to_ex(&v, w))),
                            _ => unreachable!(),
                        }
                    }
                    _ => return err(format!("atomicrmw {op}")),
                };
                self.store(st, a, *ty, &new)?;
                Self::set(st, *dst, old);
            }
            Ins::CmpXchg { dst, ty, ptr, cmp, new } => {
                let p = Self::get(fr, ptr);
                let (c, n) = (Self::get(fr, cmp), Self::get(fr, new));
                let a = self.cv(st, &p)?;
                let w = self.w.types.get(*ty).bits;
                let old = self.load(st, a, *ty)?;
                let ok = match icmp(Pred::Eq, w, &old, &c) {
                    Val::I(x) => x != 0,
                    Val::S(e) => self.decide(st, e)?,
                    _ => unreachable!(),
                };
                if ok {
                    self.store(st, a, *ty, &n)?;
                }
                Self::set(st, *dst, Val::agg(vec![old, Val::I(ok as u64)]));
            }
            Ins::Fence => Self::next(st),
            Ins::FBin { op, w, dst, a, b } => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let (x, y) = (self.cv(st, &x)?, self.cv(st, &y)?);
                let r = if *w == 64 {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    match op {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        _ => x % y,
                    }
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    match op {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        _ => x % y,
                    }
                    .to_bits() as u64
                };
                Self::set(st, *dst, Val::I(r));
            }
            Ins::FNeg { w, dst, a } => {
                let x = Self::get(fr, a);
                let r = binop(Op::Xor, *w, &x, &Val::I(1u64 << (*w - 1)))?;
                Self::set(st, *dst, r);
            }
            Ins::FCmp { p, w, dst, a, b } => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let (x, y) = (self.cv(st, &x)?, self.cv(st, &y)?);
                let (x, y) = if *w == 64 {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match *p {
                    "oeq" => !un && x == y,
                    "one" => !un && x != y,
                    "olt" => !un && x < y,
                    "ole" => !un && x <= y,
                    "ogt" => !un && x > y,
                    "oge" => !un && x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "true" => true,
                    _ => false,
                };
                Self::set(st, *dst, Val::I(r as u64));
            }
            Ins::ExtElem { dst, v, i } => {
                let (v, i) = (Self::get(fr, v), Self::get(fr, i));
                let i = self.cv(st, &i)?;
                let r = match v {
                    Val::A(x) => x[i as usize].clone(),
                    _ => return err("extractelement"),
                };
                Self::set(st, *dst, r);
            }
            Ins::InsElem { dst, v, e, i } => {
                let (v, e, i) = (Self::get(fr, v), Self::get(fr, e), Self::get(fr, i));
                let i = self.cv(st, &i)?;
                let r = match v {
                    Val::A(mut x) => {
                        Rc::make_mut(&mut x)[i as usize] = e;
                        Val::A(x)
                    }
                    _ => return err("insertelement"),
                };
                Self::set(st, *dst, r);
            }
            Ins::Shuffle { dst, a, b, n, m } => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let r = match (x, y) {
                    (Val::A(x), Val::A(y)) => Val::agg(
                        m.iter()
                            .map(|i| {
                                if i < n {
                                    x[*i as usize].clone()
                                } else {
                                    y.get((*i - *n) as usize).cloned().unwrap_or(Val::I(0))
                                }
                            })
                            .collect(),
                    ),
                    (Val::A(x), _) => {
                        Val::agg(m.iter().map(|i| x.get(*i as usize).cloned().unwrap_or(Val::I(0))).collect())
                    }
                    _ => return err("shufflevector"),
                };
                Self::set(st, *dst, r);
            }
            Ins::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
        }
        Ok(())
    }

    /// Merge two values under a symbolic condition, if their type allows it.
    fn sel(&self, c: Ex, ty: Ty, a: &Val, b: &Val) -> Option<Val> {
        let ti = self.w.types.get(ty);
        match (&ti.k, a, b) {
            (TyK::Struct(f, _), Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    v.push(self.sel(c, f[i], &x[i], &y[i])?);
                }
                Some(Val::agg(v))
            }
            (TyK::Arr(_, t) | TyK::Vec(_, t), Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.sel(c, *t, &x[i], &y[i])?);
                }
                Some(Val::agg(v))
            }
            (TyK::Ptr, Val::I(x), Val::I(y)) if x != y => None,
            _ if ti.bits > 0 => Some(from_ex(ite(c, to_ex(a, ti.bits), to_ex(b, ti.bits)))),
            _ => None,
        }
    }

    fn to_bits(&self, ty: Ty, v: &Val) -> Option<Ex> {
        let ti = self.w.types.get(ty);
        match (&ti.k, v) {
            (TyK::Vec(_, t), Val::A(x)) => {
                let w = self.w.types.get(*t).bits;
                if w as usize * x.len() > 128 {
                    return None;
                }
                let mut e = to_ex(&x[0], w);
                for y in &x[1..] {
                    e = concat(to_ex(y, w), e);
                }
                Some(e)
            }
            _ if ti.bits > 0 => Some(to_ex(v, ti.bits)),
            _ => None,
        }
    }
    fn from_bits(&self, ty: Ty, e: Ex) -> Option<Val> {
        let ti = self.w.types.get(ty);
        match &ti.k {
            TyK::Vec(n, t) => {
                let w = self.w.types.get(*t).bits;
                Some(Val::agg(
                    (0..*n as u32).map(|i| from_ex(extract(e, i * w + w - 1, i * w))).collect(),
                ))
            }
            _ if ti.bits > 0 => Some(from_ex(e)),
            _ => None,
        }
    }

    fn cast(&mut self, st: &mut State, k: CastK, from: Ty, to: Ty, v: Val) -> Res<Val> {
        let (fb, tb) = (self.w.types.get(from).bits, self.w.types.get(to).bits);
        match k {
            CastK::Bit => {
                if fb != 0 && fb == tb {
                    return Ok(v);
                }
                match self.to_bits(from, &v).and_then(|e| self.from_bits(to, e)) {
                    Some(v) => Ok(v),
                    None => err("bitcast"),
                }
            }
            CastK::Trunc | CastK::ZExt | CastK::SExt => {
                if fb == 0 {
                    let (ft, tt) = match (&self.w.types.get(from).k, &self.w.types.get(to).k) {
                        (TyK::Vec(_, a), TyK::Vec(_, b)) => (*a, *b),
                        _ => return err("cast"),
                    };
                    let x = match v {
                        Val::A(x) => x,
                        _ => return err("cast"),
                    };
                    let mut o = vec![];
                    for e in x.iter() {
                        o.push(self.cast(st, k, ft, tt, e.clone())?);
                    }
                    return Ok(Val::agg(o));
                }
                if let Val::I(x) = v {
                    if tb <= 64 {
                        let m = mask(tb) as u64;
                        return Ok(Val::I(match k {
                            CastK::SExt => {
                                let s = 64 - fb;
                                ((((x << s) as i64) >> s) as u64) & m
                            }
                            _ => x & m,
                        }));
                    }
                }
                let e = to_ex(&v, fb);
                Ok(from_ex(match k {
                    CastK::Trunc => {
                        if fb == tb {
                            e
                        } else {
                            extract(e, tb - 1, 0)
                        }
                    }
                    CastK::ZExt => zext(e, tb),
                    _ => sext(e, tb),
                }))
            }
            _ => {
                let x = self.cv(st, &v)?;
                let f = |x: u64| if fb == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let g = |d: f64| if tb == 64 { d.to_bits() } else { (d as f32).to_bits() as u64 };
                let m = |b: u32| mask(b.min(64)) as u64;
                Ok(Val::I(match k {
                    CastK::FpTrunc | CastK::FpExt => g(f(x)),
                    CastK::FpToUi => (f(x) as u64) & m(tb),
                    CastK::FpToSi => (f(x) as i64 as u64) & m(tb),
                    CastK::UiToFp => {
                        if tb == 64 {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    CastK::SiToFp => {
                        let y = sext128(x as u128, fb) as i64;
                        if tb == 64 {
                            (y as f64).to_bits()
                        } else {
                            (y as f32).to_bits() as u64
                        }
                    }
                    _ => unreachable!(),
                }))
            }
        }
    }

    fn lanewise(
        &mut self,
        st: &mut State,
        ret: Ty,
        a: &[Val],
        f: &dyn Fn(&mut Exec, &mut State, u32, &[Val]) -> Res<Val>,
    ) -> Res<Val> {
        let ti = self.w.types.get(ret);
        match ti.k {
            TyK::Vec(n, t) => {
                let w = self.w.types.get(t).bits;
                let mut out = vec![];
                for i in 0..n as usize {
                    let args: Vec<Val> = a
                        .iter()
                        .map(|x| match x {
                            Val::A(v) => v[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    out.push(f(self, st, w, &args)?);
                }
                Ok(Val::agg(out))
            }
            _ => {
                let w = ti.bits;
                f(self, st, w, a)
            }
        }
    }

    fn intrinsic(
        &mut self,
        st: &mut State,
        k: Intr,
        name: &str,
        a: &[Val],
        tys: &[Ty],
        ret: Ty,
    ) -> Res<Option<Val>> {
        let w0 = tys.first().map(|t| self.w.types.get(*t).bits).unwrap_or(0);
        Ok(match k {
            Intr::Nop => {
                if self.w.types.get(ret).bits > 0 {
                    Some(Val::I(0))
                } else {
                    None
                }
            }
            Intr::Memcpy => {
                let n = self.cv(st, &a[2])?;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.cv(st, &a[0])?;
                let s = self.cv(st, &a[1])?;
                self.copy(st, d, s, n)?;
                None
            }
            Intr::Memset => {
                let n = self.cv(st, &a[2])?;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.cv(st, &a[0])?;
                let (o, off) = self.at_mut(st, d, n)?;
                match &a[1] {
                    Val::I(x) => o.write_conc(off, &vec![*x as u8; n as usize]),
                    v => {
                        let e = to_ex(v, 8);
                        for i in 0..n as usize {
                            o.put(off + i, e);
                        }
                    }
                }
                None
            }
            Intr::Expect => Some(a[0].clone()),
            Intr::Tls => Some(a[0].clone()),
            Intr::Assume => None,
            Intr::Trap => return viol("abort (trap)"),
            Intr::IsConstant => Some(Val::I(0)),
            Intr::ObjSize => Some(Val::I(u64::MAX)),
            Intr::Fshl | Intr::Fshr => {
                let right = k == Intr::Fshr;
                Some(self.lanewise(st, ret, a, &|x, st, w, a| {
                    let s = (x.cv(st, &a[2])? % w as u64) as u32;
                    let (hi, lo) = (to_ex(&a[0], w), to_ex(&a[1], w));
                    if s == 0 {
                        return Ok(if right { a[1].clone() } else { a[0].clone() });
                    }
                    let l = if right { w - s } else { s }; // bits taken from the top of lo
                    let e = concat(extract(hi, w - l - 1, 0), extract(lo, w - 1, w - l));
                    Ok(from_ex(e))
                })?)
            }
            Intr::AddO(s) | Intr::SubO(s) => {
                let w = w0;
                let op = if matches!(k, Intr::AddO(_)) { Op::Add } else { Op::Sub };
                let (x, y) = (to_ex(&a[0], w), to_ex(&a[1], w));
                let r = bin(op, x, y);
                let o = match (op, s) {
                    (Op::Add, false) => bin(Op::Ult, r, x),
                    (Op::Sub, false) => bin(Op::Ult, x, y),
                    (op, _) => {
                        if w >= 128 {
                            return err("signed overflow at 128 bits");
                        }
                        let wide = bin(op, sext(x, w + 1), sext(y, w + 1));
                        not(eq(sext(r, w + 1), wide))
                    }
                };
                Some(Val::agg(vec![from_ex(r), from_ex(o)]))
            }
            Intr::MulO(s) => {
                let w = w0;
                let (x, y) = (to_ex(&a[0], w), to_ex(&a[1], w));
                if w > 64 {
                    match (konst(x), konst(y)) {
                        (Some(x), Some(y)) if !s => {
                            let (r, o) = x.overflowing_mul(y);
                            return Ok(Some(Val::agg(vec![mkc(w, r), Val::I(o as u64)])));
                        }
                        _ => return err("wide multiplication with overflow"),
                    }
                }
                let r = bin(Op::Mul, x, y);
                let o = if s {
                    not(eq(sext(r, 2 * w), bin(Op::Mul, sext(x, 2 * w), sext(y, 2 * w))))
                } else {
                    not(eq(zext(r, 2 * w), bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w))))
                };
                Some(Val::agg(vec![from_ex(r), from_ex(o)]))
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match k {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                Some(self.lanewise(st, ret, a, &|_, _, w, a| {
                    Ok(match icmp(p, w, &a[0], &a[1]) {
                        Val::I(0) => a[1].clone(),
                        Val::I(_) => a[0].clone(),
                        Val::S(c) => from_ex(ite(c, to_ex(&a[0], w), to_ex(&a[1], w))),
                        _ => unreachable!(),
                    })
                })?)
            }
            Intr::USubSat | Intr::UAddSat | Intr::SSubSat | Intr::SAddSat => {
                Some(self.lanewise(st, ret, a, &|_, _, w, a| {
                    let (x, y) = (to_ex(&a[0], w), to_ex(&a[1], w));
                    Ok(from_ex(match k {
                        Intr::USubSat => {
                            ite(bin(Op::Ult, x, y), cst(w, 0), bin(Op::Sub, x, y))
                        }
                        Intr::UAddSat => {
                            let r = bin(Op::Add, x, y);
                            ite(bin(Op::Ult, r, x), cst(w, u128::MAX), r)
                        }
                        _ => {
                            let op = if k == Intr::SAddSat { Op::Add } else { Op::Sub };
                            let r = bin(op, sext(x, w + 1), sext(y, w + 1));
                            let z = extract(r, w - 1, 0);
                            let lo = 1u128 << (w - 1);
                            // Both top bits differ exactly when the result does not fit.
                            let over = not(eq(extract(r, w, w), extract(r, w - 1, w - 1)));
                            ite(over, ite(eq(extract(r, w, w), cst(1, 1)), cst(w, lo), cst(w, lo - 1)), z)
                        }
                    }))
                })?)
            }
            Intr::UCmp | Intr::SCmp => {
                let w = w0;
                let rb = self.w.types.get(ret).bits;
                let (lt, gt) =
                    if k == Intr::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = to_ex(&icmp(lt, w, &a[0], &a[1]), 1);
                let g = to_ex(&icmp(gt, w, &a[0], &a[1]), 1);
                Some(from_ex(ite(l, cst(rb, u128::MAX), ite(g, cst(rb, 1), cst(rb, 0)))))
            }
            Intr::Abs => Some(self.lanewise(st, ret, &a[..1], &|_, _, w, a| {
                let x = to_ex(&a[0], w);
                Ok(from_ex(ite(
                    bin(Op::Slt, x, cst(w, 0)),
                    bin(Op::Sub, cst(w, 0), x),
                    x,
                )))
            })?),
            Intr::Ctpop => Some(self.lanewise(st, ret, a, &|_, _, w, a| {
                Ok(match conc(&a[0]) {
                    Some(x) => mkc(w, x.count_ones() as u128),
                    None => {
                        let x = to_ex(&a[0], w);
                        let mut r = cst(w, 0);
                        for i in 0..w {
                            r = bin(Op::Add, r, zext(extract(x, i, i), w));
                        }
                        from_ex(r)
                    }
                })
            })?),
            Intr::Ctlz | Intr::Cttz => Some(self.lanewise(st, ret, a, &|ex, st, w, a| {
                Ok(match conc(&a[0]) {
                    Some(x) => {
                        let n = if x == 0 {
                            w
                        } else if k == Intr::Ctlz {
                            x.leading_zeros() - (128 - w)
                        } else {
                            x.trailing_zeros()
                        };
                        mkc(w, n as u128)
                    }
                    None => {
                        let x = to_ex(&a[0], w);
                        let mut r = cst(w, w as u128);
                        for j in 0..w {
                            // last assignment wins: go from the far end to the near end
                            let (bit, n) = if k == Intr::Ctlz { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                            r = ite(extract(x, bit, bit), cst(w, n as u128), r);
                        }
                        // Often the values the byte can still have all lead to the same position.
                        from_ex(ex.s.settled(&st.pc, r))
                    }
                })
            })?),
            Intr::Bswap => Some(self.lanewise(st, ret, a, &|_, _, w, a| {
                let x = to_ex(&a[0], w);
                let mut e = extract(x, 7, 0);
                for i in 1..w / 8 {
                    e = concat(e, extract(x, i * 8 + 7, i * 8));
                }
                Ok(from_ex(e))
            })?),
            Intr::Bitrev => Some(self.lanewise(st, ret, a, &|_, _, w, a| {
                let x = to_ex(&a[0], w);
                let mut e = extract(x, 0, 0);
                for i in 1..w {
                    e = concat(e, extract(x, i, i));
                }
                Ok(from_ex(e))
            })?),
            Intr::FAbs => Some(self.lanewise(st, ret, a, &|_, _, w, a| {
                binop(Op::And, w, &a[0], &mkc(w, mask(w - 1)))
            })?),
            Intr::CopySign => {
                let w = w0;
                let m = binop(Op::And, w, &a[0], &mkc(w, mask(w - 1)))?;
                let s = binop(Op::And, w, &a[1], &mkc(w, 1 << (w - 1)))?;
                Some(binop(Op::Or, w, &m, &s)?)
            }
            Intr::VRedAnd | Intr::VRedOr | Intr::VRedAdd => {
                let w = self.w.types.get(ret).bits;
                let op = match k {
                    Intr::VRedAnd => Op::And,
                    Intr::VRedOr => Op::Or,
                    _ => Op::Add,
                };
                match &a[0] {
                    Val::A(v) => {
                        let mut r = v[0].clone();
                        for x in &v[1..] {
                            r = binop(op, w, &r, x)?;
                        }
                        Some(r)
                    }
                    _ => return err("vector reduce"),
                }
            }
            Intr::Pmovmskb => match &a[0] {
                Val::A(v) => {
                    let mut e = extract(to_ex(&v[0], 8), 7, 7);
                    for x in &v[1..] {
                        e = concat(extract(to_ex(x, 8), 7, 7), e);
                    }
                    Some(from_ex(zext(e, 32)))
                }
                _ => return err("pmovmskb"),
            },
            Intr::PtrMask => Some(binop(Op::And, 64, &a[0], &a[1])?),
            Intr::Unknown => return err(format!("unknown intrinsic llvm.{name}")),
        })
    }

    // ------------------------------------------------------------------------ path endings

    pub fn inputs_under(&self, st: &State, m: &Assign) -> Vec<(u32, u128)> {
        st.inputs.iter().map(|v| (width(*v), expr::eval(*v, m))).collect()
    }

    /// Records a violation; the inputs come from a fresh z3 model of the whole path condition.
    pub fn record_violation(&mut self, st: &State, extra: Option<Ex>, msg: String, budget: bool) {
        let mut pc = st.pc.clone();
        if let Some(c) = extra {
            match self.s.query(&pc, Some(c), Why::Assert) {
                Ok(Some(a)) => self.s.add(&mut pc, c, &a),
                Ok(None) => return,
                Err(e) => {
                    self.errors.push(e);
                    return;
                }
            }
        }
        let m = match self.s.query(&pc, None, Why::Path) {
            Ok(Some(a)) => a,
            Ok(None) => {
                self.errors.push(format!("unsatisfiable path reached: {msg}"));
                return;
            }
            Err(e) => {
                self.errors.push(e);
                return;
            }
        };
        let v = Violation {
            msg: msg.clone(),
            inputs: self.inputs_under(st, &m),
            trace: self.backtrace(st),
            budget,
        };
        if let Some(k) = self.known.iter().find(|k| msg.contains(&**k)) {
            self.known_hits.entry(k.clone()).or_insert(v);
            return;
        }
        if self.violations.iter().any(|x| x.msg == msg) {
            return;
        }
        self.violations.push(v);
    }

    pub fn end_path(&mut self, st: State, e: End) {
        self.stats.max_depth = self.stats.max_depth.max(st.depth);
        self.stats.max_path_instrs = self.stats.max_path_instrs.max(st.instrs);
        self.stats.max_inputs = self.stats.max_inputs.max(st.inputs.len() as u32);
        self.stats.max_objs = self.stats.max_objs.max(st.heap.count());
        match e {
            End::Done => {
                // z3 confirms that the path is feasible
                match self.s.query(&st.pc, None, Why::Path) {
                    Ok(Some(m)) => {
                        self.stats.paths += 1;
                        for i in 0..128 {
                            if st.reach[i / 64] >> (i % 64) & 1 == 1 {
                                self.stats.reach[i] += 1;
                            }
                        }
                        let n = self.stats.paths;
                        if self.samples.len() < self.max_samples
                            && (n <= 3 || n % self.sample_every == 0)
                        {
                            let logs = st.logs.iter().map(|e| expr::eval(*e, &m) as u64).collect();
                            let inputs = self.inputs_under(&st, &m);
                            self.samples.push(Sample { inputs, logs });
                        }
                    }
                    Ok(None) => self.errors.push("a finished path is infeasible".into()),
                    Err(e) => self.errors.push(e),
                }
            }
            End::Killed => self.stats.killed += 1,
            End::Violation(m) => {
                self.stats.paths += 1;
                self.record_violation(&st, None, m, false)
            }
            End::Error(m) => {
                let bt = self.backtrace(&st).join("\n    ");
                self.errors.push(format!("{m}\n  at {bt}"));
            }
            End::Budget => {
                self.stats.paths += 1;
                let m = format!("does not finish within {} instructions", self.max_instr);
                self.record_violation(&st, None, m, true)
            }
        }
    }
}
