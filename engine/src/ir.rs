//! Lazy parser for textual LLVM IR: modules are indexed line by line, functions and global
//! initialisers are parsed the first time they are needed.

use crate::expr::{mask, Ex, FxMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// Concrete, at most 64 bits wide (also pointers and float bit patterns).
    I(u64),
    /// Concrete, 65..=128 bits wide.
    W(Rc<u128>),
    /// Symbolic (never a constant expression).
    S(Ex),
    /// Aggregate or vector.
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn zero() -> Val {
        Val::I(0)
    }
    pub fn agg(v: Vec<Val>) -> Val {
        Val::A(Rc::new(v))
    }
}

// ------------------------------------------------------------------------------------- types

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ty(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u64, Ty),
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Other,
}

pub struct TyInfo {
    pub k: TyK,
    pub size: u64,  // alloc size (array stride)
    pub store: u64, // bytes touched by load/store
    pub align: u64,
    pub offs: Vec<u64>,
    pub bits: u32, // scalar width, 0 otherwise
}

#[derive(Default)]
pub struct Types {
    pub v: Vec<TyInfo>,
    map: FxMap<TyK, u32>,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Types {
    pub fn mk(&mut self, k: TyK) -> Ty {
        if let Some(i) = self.map.get(&k) {
            return Ty(*i);
        }
        let (mut size, mut store, mut align, mut offs, mut bits) = (0u64, 0u64, 1u64, vec![], 0u32);
        match &k {
            TyK::Void | TyK::Other => {}
            TyK::Int(w) => {
                bits = *w;
                store = (*w as u64 + 7) / 8;
                align = match w {
                    0..=8 => 1,
                    9..=16 => 2,
                    17..=32 => 4,
                    33..=64 => 8,
                    _ => 16,
                };
                size = up(store, align);
            }
            TyK::Ptr | TyK::F64 => {
                bits = 64;
                store = 8;
                size = 8;
                align = 8;
            }
            TyK::F32 => {
                bits = 32;
                store = 4;
                size = 4;
                align = 4;
            }
            TyK::Vec(n, t) => {
                let eb = self.v[t.0 as usize].bits as u64;
                store = (n * eb + 7) / 8;
                align = store.next_power_of_two();
                size = up(store, align);
            }
            TyK::Arr(n, t) => {
                let i = &self.v[t.0 as usize];
                size = i.size * n;
                store = size;
                align = i.align;
            }
            TyK::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    let i = &self.v[t.0 as usize];
                    if !packed {
                        o = up(o, i.align);
                        align = align.max(i.align);
                    }
                    offs.push(o);
                    o += i.size;
                }
                if !packed {
                    o = up(o, align);
                }
                size = o;
                store = o;
            }
        }
        let i = self.v.len() as u32;
        self.v.push(TyInfo { k: k.clone(), size, store, align, offs, bits });
        self.map.insert(k, i);
        Ty(i)
    }
    pub fn get(&self, t: Ty) -> &TyInfo {
        &self.v[t.0 as usize]
    }
    pub fn zero(&self, t: Ty) -> Val {
        match &self.get(t).k {
            TyK::Vec(n, e) | TyK::Arr(n, e) => {
                let z = self.zero(*e);
                Val::agg(vec![z; *n as usize])
            }
            TyK::Struct(f, _) => Val::agg(f.iter().map(|t| self.zero(*t)).collect()),
            TyK::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            _ => Val::I(0),
        }
    }
}

// ------------------------------------------------------------------------------- instructions

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

pub type BinOp = crate::expr::Op;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32), // function slot
    Ind(Opnd),
    Intr(Intr, &'static str),
    AsmIdent,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Expect,
    Assume,
    Trap,
    Fshl,
    Fshr,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    UMax,
    UMin,
    SMax,
    SMin,
    Ctpop,
    Ctlz,
    Cttz,
    IsConstant,
    Tls,
    Bswap,
    Bitrev,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    UCmp,
    SCmp,
    Abs,
    FAbs,
    CopySign,
    VRedAnd,
    VRedOr,
    VRedAdd,
    Pmovmskb,
    ObjSize,
    PtrMask,
    Unknown,
}

#[derive(Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u32, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    FBin { op: u8, w: u32, dst: u32, a: Opnd, b: Opnd },
    FNeg { w: u32, dst: u32, a: Opnd },
    ICmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    FCmp { p: &'static str, w: u32, dst: u32, a: Opnd, b: Opnd },
    Load { dst: u32, ty: Ty, ptr: Opnd },
    Store { ty: Ty, val: Opnd, ptr: Opnd },
    Gep { dst: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)> },
    Cast { k: CastK, from: Ty, to: Ty, dst: u32, a: Opnd },
    Mov { dst: u32, a: Opnd },
    Select { dst: u32, ty: Ty, clanes: u32, c: Opnd, a: Opnd, b: Opnd },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<Opnd>, tys: Vec<Ty>, next: Option<u32> },
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { v: Opnd, w: u32, def: u32, cases: Vec<(u128, u32)>, map: FxMap<u64, u32> },
    Ret(Option<Opnd>),
    Unreachable,
    Alloca { dst: u32, size: u64, n: Opnd, align: u64 },
    Extract { dst: u32, a: Opnd, path: Vec<u32> },
    Insert { dst: u32, a: Opnd, v: Opnd, path: Vec<u32> },
    Rmw { op: &'static str, dst: u32, ty: Ty, ptr: Opnd, v: Opnd },
    CmpXchg { dst: u32, ty: Ty, ptr: Opnd, cmp: Opnd, new: Opnd },
    Fence,
    ExtElem { dst: u32, v: Opnd, i: Opnd },
    InsElem { dst: u32, v: Opnd, e: Opnd, i: Opnd },
    Shuffle { dst: u32, a: Opnd, b: Opnd, n: u32, m: Vec<u32> },
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub slot: u32,
    pub name: &'static str,
    pub params: Vec<u32>,
    pub ptys: Vec<Ty>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub byval: Vec<u64>,
}

// --------------------------------------------------------------------------------------- world

pub const FN_BASE: u64 = 0x2000_0000;
pub const GL_BASE: u64 = 0x1000_0000;

pub struct FnSlot {
    pub name: &'static str,
    pub module: u32,
    pub text: Option<&'static [u8]>,
    pub parsed: Option<&'static Func>,
    pub hook: Option<u32>,
    pub hook_known: bool,
}

pub struct GSlot {
    pub name: &'static str,
    pub module: u32,
    pub text: &'static [u8], // after '='
    pub init: Option<Rc<crate::mem::Obj>>,
}

#[derive(Clone, Copy)]
pub enum Sym {
    F(u32),
    G(u32),
}

pub struct Module {
    pub path: String,
    locals: FxMap<&'static str, Sym>,
    types: FxMap<&'static str, &'static [u8]>,
    tycache: FxMap<&'static str, Ty>,
}

pub struct World {
    pub types: Types,
    pub mods: Vec<Module>,
    globals: FxMap<&'static str, (Sym, bool)>,
    pub fns: Vec<FnSlot>,
    pub gs: Vec<GSlot>,
    pub ty_void: Ty,
    pub ty_ptr: Ty,
}

fn leak(s: Vec<u8>) -> &'static [u8] {
    Box::leak(s.into_boxed_slice())
}
fn st(b: &'static [u8]) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

fn ident_end(t: &[u8], mut p: usize) -> (usize, usize, usize) {
    // returns (name start, name end, next)
    if t[p] == b'"' {
        p += 1;
        let s = p;
        while t[p] != b'"' {
            p += 1;
        }
        (s, p, p + 1)
    } else {
        let s = p;
        while p < t.len()
            && (t[p].is_ascii_alphanumeric() || matches!(t[p], b'.' | b'_' | b'$' | b'-'))
        {
            p += 1;
        }
        (s, p, p)
    }
}

impl World {
    pub fn new() -> World {
        let mut types = Types::default();
        let ty_void = types.mk(TyK::Void);
        let ty_ptr = types.mk(TyK::Ptr);
        World {
            types,
            mods: vec![],
            globals: Default::default(),
            fns: vec![],
            gs: vec![],
            ty_void,
            ty_ptr,
        }
    }

    pub fn load(&mut self, path: &str) {
        let text = leak(std::fs::read(path).unwrap_or_else(|e| panic!("{path}: {e}")));
        let m = self.mods.len() as u32;
        let mut locals: FxMap<&'static str, Sym> = Default::default();
        let mut types: FxMap<&'static str, &'static [u8]> = Default::default();
        let mut p = 0;
        while p < text.len() {
            let e = memchr(b'\n', &text[p..]).map(|x| p + x).unwrap_or(text.len());
            let line = &text[p..e];
            if line.starts_with(b"@") {
                let (a, b, n) = ident_end(line, 1);
                let name = st(&line[a..b]);
                let rest = &line[n..];
                let rest = &rest[memchr(b'=', rest).unwrap() + 1..];
                let word = first_word(rest);
                let is_local = word == "private" || word == "internal";
                let ext = word == "external" || word == "extern_weak";
                if !ext {
                    let g = self.gs.len() as u32;
                    self.gs.push(GSlot { name, module: m, text: rest, init: None });
                    if is_local {
                        locals.insert(name, Sym::G(g));
                    } else {
                        let weak = word.starts_with("linkonce") || word.starts_with("weak");
                        self.def(name, Sym::G(g), weak);
                    }
                }
            } else if line.starts_with(b"%") {
                let (a, b, n) = ident_end(line, 1);
                let name = st(&line[a..b]);
                let rest = &line[n..];
                if let Some(x) = find(rest, b"= type ") {
                    types.insert(name, &rest[x + 7..]);
                }
            } else if line.starts_with(b"define ") {
                let at = find_at(line).unwrap();
                let (a, b, _) = ident_end(line, at + 1);
                let name = st(&line[a..b]);
                let endb = find(&text[p..], b"\n}").unwrap() + p;
                let body = &text[p..endb + 2];
                let word = first_word(&line[7..]);
                let f = self.fns.len() as u32;
                self.fns.push(FnSlot {
                    name,
                    module: m,
                    text: Some(body),
                    parsed: None,
                    hook: None,
                    hook_known: false,
                });
                if word == "internal" || word == "private" {
                    locals.insert(name, Sym::F(f));
                } else {
                    let weak = word.starts_with("linkonce")
                        || word.starts_with("weak")
                        || word.starts_with("available");
                    self.def(name, Sym::F(f), weak);
                }
                p = endb + 2;
                continue;
            }
            p = e + 1;
        }
        self.mods.push(Module { path: path.to_string(), locals, types, tycache: Default::default() });
    }

    fn def(&mut self, name: &'static str, s: Sym, weak: bool) {
        match self.globals.get(name) {
            Some((_, false)) => {}
            Some((_, true)) if weak => {}
            _ => {
                self.globals.insert(name, (s, weak));
            }
        }
    }

    pub fn find_fn(&self, name: &str) -> Option<u32> {
        match self.globals.get(name) {
            Some((Sym::F(f), _)) => Some(*f),
            _ => None,
        }
    }

    pub fn sym(&mut self, m: u32, name: &'static str) -> Sym {
        if let Some(s) = self.mods[m as usize].locals.get(name) {
            return *s;
        }
        if let Some((s, _)) = self.globals.get(name) {
            return *s;
        }
        // undefined: a function slot without body; calling it is an error unless hooked
        let f = self.fns.len() as u32;
        self.fns.push(FnSlot {
            name,
            module: u32::MAX,
            text: None,
            parsed: None,
            hook: None,
            hook_known: false,
        });
        self.globals.insert(name, (Sym::F(f), true));
        Sym::F(f)
    }

    pub fn addr(&mut self, m: u32, name: &'static str) -> u64 {
        match self.sym(m, name) {
            Sym::F(f) => (FN_BASE + f as u64) << 32,
            Sym::G(g) => {
                let t = self.gs[g as usize].text;
                if let Some(a) = alias_target(t) {
                    let md = self.gs[g as usize].module;
                    return self.addr(md, a);
                }
                (GL_BASE + g as u64) << 32
            }
        }
    }

    /// The initial contents of global number `g`.
    pub fn global(&mut self, g: u32) -> Rc<crate::mem::Obj> {
        if let Some(o) = &self.gs[g as usize].init {
            return o.clone();
        }
        let t = self.gs[g as usize].text;
        let m = self.gs[g as usize].module;
        let mut ps = Parser { t, p: 0, w: self, m, regs: Default::default(), nregs: 0, fname: "" };
        // skip linkage etc. until `global` or `constant`
        let mut constant = false;
        loop {
            let w = ps.word();
            match w {
                "global" => break,
                "constant" => {
                    constant = true;
                    break;
                }
                "" => panic!("bad global"),
                _ => {
                    if ps.peek() == b'(' {
                        ps.skip_parens();
                    }
                }
            }
        }
        let ty = ps.ty();
        let v = ps.konst(ty);
        let size = self.types.get(ty).size;
        let mut data = vec![0u8; size as usize];
        self.flatten(ty, &v, 0, &mut data);
        let o = Rc::new(crate::mem::Obj::global(data, constant));
        self.gs[g as usize].init = Some(o.clone());
        o
    }

    fn flatten(&self, ty: Ty, v: &Val, off: usize, out: &mut [u8]) {
        let ti = self.types.get(ty);
        match (&ti.k, v) {
            (TyK::Struct(f, _), Val::A(x)) => {
                for (i, t) in f.iter().enumerate() {
                    self.flatten(*t, &x[i], off + ti.offs[i] as usize, out);
                }
            }
            (TyK::Arr(_, t), Val::A(x)) => {
                let s = self.types.get(*t).size as usize;
                for (i, e) in x.iter().enumerate() {
                    self.flatten(*t, e, off + i * s, out);
                }
            }
            (TyK::Vec(_, t), Val::A(x)) => {
                let s = self.types.get(*t).bits as usize / 8;
                assert!(s > 0);
                for (i, e) in x.iter().enumerate() {
                    self.flatten(*t, e, off + i * s, out);
                }
            }
            (_, Val::I(x)) => {
                let n = ti.store as usize;
                out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (_, Val::W(x)) => {
                let n = ti.store as usize;
                out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => panic!("flatten"),
        }
    }

    pub fn func(&mut self, slot: u32) -> Result<&'static Func, String> {
        if let Some(f) = self.fns[slot as usize].parsed {
            return Ok(f);
        }
        let (t, m, name) = {
            let s = &self.fns[slot as usize];
            (s.text, s.module, s.name)
        };
        let t = t.ok_or_else(|| format!("call of undefined function {name}"))?;
        let mut ps = Parser { t, p: 0, w: self, m, regs: Default::default(), nregs: 0, fname: name };
        let f = ps.function(slot);
        let f: &'static Func = Box::leak(Box::new(f));
        self.fns[slot as usize].parsed = Some(f);
        Ok(f)
    }
}

fn alias_target(t: &'static [u8]) -> Option<&'static str> {
    // "... alias <ty>, ptr @target"
    let mut i = 0;
    loop {
        while i < t.len() && t[i] == b' ' {
            i += 1;
        }
        let s = i;
        while i < t.len() && t[i].is_ascii_alphanumeric() || i < t.len() && t[i] == b'_' {
            i += 1;
        }
        match &t[s..i] {
            b"alias" => break,
            b"private" | b"internal" | b"unnamed_addr" | b"local_unnamed_addr" | b"hidden"
            | b"dso_local" | b"weak_odr" | b"linkonce_odr" | b"weak" | b"external" => {}
            _ => return None,
        }
    }
    let at = t[i..].iter().position(|c| *c == b'@')? + i;
    let (a, b, _) = ident_end(t, at + 1);
    Some(st(&t[a..b]))
}

fn memchr(c: u8, t: &[u8]) -> Option<usize> {
    t.iter().position(|x| *x == c)
}
pub fn find(t: &[u8], pat: &[u8]) -> Option<usize> {
    let f = pat[0];
    let mut i = 0;
    while i + pat.len() <= t.len() {
        match memchr(f, &t[i..t.len() - pat.len() + 1]) {
            None => return None,
            Some(x) => {
                i += x;
                if &t[i..i + pat.len()] == pat {
                    return Some(i);
                }
                i += 1;
            }
        }
    }
    None
}
/// Position of the '@' introducing the function name: the first '@' outside quotes.
fn find_at(t: &[u8]) -> Option<usize> {
    let mut q = false;
    for (i, c) in t.iter().enumerate() {
        match c {
            b'"' => q = !q,
            b'@' if !q => return Some(i),
            _ => {}
        }
    }
    None
}
fn first_word(t: &[u8]) -> &str {
    let mut i = 0;
    while i < t.len() && t[i] == b' ' {
        i += 1;
    }
    let s = i;
    while i < t.len() && (t[i].is_ascii_alphanumeric() || t[i] == b'_') {
        i += 1;
    }
    std::str::from_utf8(&t[s..i]).unwrap()
}

// -------------------------------------------------------------------------------------- parser

struct Parser<'w> {
    t: &'static [u8],
    p: usize,
    w: &'w mut World,
    m: u32,
    regs: FxMap<&'static str, u32>,
    nregs: u32,
    fname: &'static str,
}

impl<'w> Parser<'w> {
    fn err(&self, msg: &str) -> ! {
        let e = (self.p + 120).min(self.t.len());
        let s = self.p.saturating_sub(120);
        panic!(
            "IR parse error in {}: {msg} at: {} <<HERE>> {}",
            self.fname,
            String::from_utf8_lossy(&self.t[s..self.p]),
            String::from_utf8_lossy(&self.t[self.p..e])
        )
    }
    fn ws(&mut self) {
        while self.p < self.t.len() && matches!(self.t[self.p], b' ' | b'\n' | b'\t') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.t.len() {
            self.t[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.err(&format!("expected {}", c as char));
        }
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let s = self.p;
        while self.p < self.t.len()
            && (self.t[self.p].is_ascii_alphanumeric() || matches!(self.t[self.p], b'_' | b'.'))
        {
            self.p += 1;
        }
        st(&self.t[s..self.p])
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let s = self.p;
        let w = self.word();
        self.p = s;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            match self.t[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn skip_line(&mut self) {
        while self.p < self.t.len() && self.t[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let neg = self.eat(b'-');
        let s = self.p;
        while self.p < self.t.len() && self.t[self.p].is_ascii_digit() {
            self.p += 1;
        }
        if s == self.p {
            self.err("number");
        }
        let v: u128 = st(&self.t[s..self.p]).parse().unwrap_or_else(|_| self.err("big number"));
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    fn name(&mut self) -> &'static str {
        // after % or @
        let (a, b, n) = ident_end(self.t, self.p);
        self.p = n;
        st(&self.t[a..b])
    }

    fn ty(&mut self) -> Ty {
        let mut t = match self.peek() {
            b'[' => {
                self.p += 1;
                let n = self.num() as u64;
                let x = self.word();
                debug_assert_eq!(x, "x");
                let e = self.ty();
                self.expect(b']');
                self.w.types.mk(TyK::Arr(n, e))
            }
            b'{' => {
                self.p += 1;
                let mut f = vec![];
                while !self.eat(b'}') {
                    f.push(self.ty());
                    self.eat(b',');
                }
                self.w.types.mk(TyK::Struct(f, false))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let mut f = vec![];
                    while !self.eat(b'}') {
                        f.push(self.ty());
                        self.eat(b',');
                    }
                    self.expect(b'>');
                    self.w.types.mk(TyK::Struct(f, true))
                } else {
                    let n = self.num() as u64;
                    self.word();
                    let e = self.ty();
                    self.expect(b'>');
                    self.w.types.mk(TyK::Vec(n, e))
                }
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                self.named(n)
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => self.w.ty_ptr,
                    "void" => self.w.ty_void,
                    "float" => self.w.types.mk(TyK::F32),
                    "double" => self.w.types.mk(TyK::F64),
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => {
                        self.w.types.mk(TyK::Other)
                    }
                    _ if w.starts_with('i') && w.len() > 1 => match w[1..].parse() {
                        Ok(n) => self.w.types.mk(TyK::Int(n)),
                        Err(_) => self.err("type"),
                    },
                    _ => self.err("type"),
                }
            }
        };
        if t == self.w.ty_void && self.peek() == b'(' {
            // function type
            self.skip_parens();
            t = self.w.ty_void;
        }
        t
    }

    fn named(&mut self, n: &'static str) -> Ty {
        if let Some(t) = self.w.mods[self.m as usize].tycache.get(n) {
            return *t;
        }
        let txt = match self.w.mods[self.m as usize].types.get(n) {
            Some(t) => *t,
            None => self.err("unknown named type"),
        };
        let (t, p) = (self.t, self.p);
        self.t = txt;
        self.p = 0;
        let r = if self.peek_word() == "opaque" { self.w.types.mk(TyK::Other) } else { self.ty() };
        self.t = t;
        self.p = p;
        self.w.mods[self.m as usize].tycache.insert(n, r);
        r
    }

    /// Constant of type `ty`.
    fn konst(&mut self, ty: Ty) -> Val {
        match self.peek() {
            b'@' => {
                self.p += 1;
                let n = self.name();
                return Val::I(self.w.addr(self.m, n));
            }
            b'-' | b'0'..=b'9' | b'+' => {
                return self.number(ty);
            }
            b'c' if self.t.get(self.p + 1) == Some(&b'"') => {
                self.p += 2;
                let mut v = vec![];
                while self.t[self.p] != b'"' {
                    let c = self.t[self.p];
                    if c == b'\\' && self.t[self.p + 1] == b'\\' {
                        v.push(Val::I(b'\\' as u64));
                        self.p += 2;
                    } else if c == b'\\' {
                        let h = st(&self.t[self.p + 1..self.p + 3]);
                        v.push(Val::I(u8::from_str_radix(h, 16).unwrap() as u64));
                        self.p += 3;
                    } else {
                        v.push(Val::I(c as u64));
                        self.p += 1;
                    }
                }
                self.p += 1;
                return Val::agg(v);
            }
            b'{' => return self.agg(b'}', false),
            b'[' => return self.agg(b']', false),
            b'<' => {
                if self.t[self.p + 1] == b'{' {
                    self.p += 1;
                    return self.agg(b'}', true);
                }
                return self.agg(b'>', false);
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "null" | "none" => Val::I(0),
            "true" => Val::I(1),
            "false" => Val::I(0),
            "undef" | "poison" | "zeroinitializer" => self.w.types.zero(ty),
            "splat" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.konst(t);
                self.expect(b')');
                let n = match self.w.types.get(ty).k {
                    TyK::Vec(n, _) => n,
                    _ => self.err("splat"),
                };
                Val::agg(vec![v; n as usize])
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    let w = self.word();
                    if w == "inrange" {
                        self.skip_parens();
                    }
                }
                self.expect(b'(');
                let (base, off, idx) = self.gep_body();
                self.expect(b')');
                let b = match base {
                    Opnd::C(Val::I(b)) => b,
                    _ => self.err("gep const base"),
                };
                let mut a = b.wrapping_add(off);
                for (o, w, s) in idx {
                    match o {
                        Opnd::C(Val::I(x)) => {
                            let x = crate::expr::sext128(x as u128, w) as u64;
                            a = a.wrapping_add(x.wrapping_mul(s));
                        }
                        _ => self.err("gep const idx"),
                    }
                }
                Val::I(a)
            }
            "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "addrspacecast" | "zext" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let v = self.konst(t);
                if self.word() != "to" {
                    self.err("to");
                }
                let t2 = self.ty();
                self.expect(b')');
                match v {
                    Val::I(x) => {
                        let b = self.w.types.get(t2).bits;
                        Val::I(x & mask(b.min(64)) as u64)
                    }
                    o => o,
                }
            }
            "sub" | "add" | "xor" | "and" | "or" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let a = self.konst(t);
                self.expect(b',');
                let t = self.ty();
                let b = self.konst(t);
                self.expect(b')');
                let bits = self.w.types.get(t).bits;
                match (a, b) {
                    (Val::I(a), Val::I(b)) => {
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            _ => a | b,
                        };
                        Val::I(r & mask(bits) as u64)
                    }
                    _ => self.err("const expr"),
                }
            }
            _ => self.number_word(w, ty),
        }
    }

    fn number_word(&mut self, w: &str, _ty: Ty) -> Val {
        self.err(&format!("constant {w}"))
    }

    fn number(&mut self, ty: Ty) -> Val {
        let k = self.w.types.get(ty).k.clone();
        match k {
            TyK::Int(w) => {
                let n = self.num();
                let v = (n as u128) & mask(w);
                if w > 64 {
                    Val::W(Rc::new(v))
                } else {
                    Val::I(v as u64)
                }
            }
            TyK::F32 | TyK::F64 => {
                self.ws();
                let s = self.p;
                while self.p < self.t.len()
                    && (self.t[self.p].is_ascii_alphanumeric()
                        || matches!(self.t[self.p], b'.' | b'+' | b'-' | b'(' ))
                {
                    if self.t[self.p] == b'(' {
                        self.skip_parens();
                    } else {
                        self.p += 1;
                    }
                }
                let x = st(&self.t[s..self.p]);
                let d: f64 = if let Some(h) = x.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| self.err("float")))
                } else if x.contains("inf") {
                    if x.starts_with('-') {
                        f64::NEG_INFINITY
                    } else {
                        f64::INFINITY
                    }
                } else if x.contains("nan") {
                    f64::NAN
                } else {
                    x.parse().unwrap_or_else(|_| self.err("float"))
                };
                if k == TyK::F32 {
                    Val::I((d as f32).to_bits() as u64)
                } else {
                    Val::I(d.to_bits())
                }
            }
            _ => self.err("number of this type"),
        }
    }

    fn agg(&mut self, close: u8, packed: bool) -> Val {
        self.p += 1;
        let mut v = vec![];
        while !self.eat(close) {
            let t = self.ty();
            v.push(self.konst(t));
            self.eat(b',');
        }
        if packed {
            self.expect(b'>');
        }
        Val::agg(v)
    }

    fn reg(&mut self, n: &'static str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }

    fn opnd(&mut self, ty: Ty) -> Opnd {
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.name();
            Opnd::R(self.reg(n))
        } else {
            Opnd::C(self.konst(ty))
        }
    }
    fn ty_opnd(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        let o = self.opnd(t);
        (t, o)
    }

    /// `<srcty>, ptr <base>{, <ity> <idx>}*`
    fn gep_body(&mut self) -> (Opnd, u64, Vec<(Opnd, u32, u64)>) {
        let src = self.ty();
        self.expect(b',');
        let (_bt, base) = self.ty_opnd();
        let mut off = 0u64;
        let mut idx = vec![];
        let mut cur = src;
        let mut first = true;
        while self.peek() == b',' {
            let save = self.p;
            self.p += 1;
            if self.peek() == b'!' {
                self.p = save;
                break;
            }
            let it = self.ty();
            let o = self.opnd(it);
            let iw = self.w.types.get(it).bits;
            let (stride, next) = if first {
                (self.w.types.get(cur).size, cur)
            } else {
                match self.w.types.get(cur).k.clone() {
                    TyK::Arr(_, e) | TyK::Vec(_, e) => (self.w.types.get(e).size, e),
                    TyK::Struct(f, _) => {
                        let i = match &o {
                            Opnd::C(Val::I(i)) => *i as usize,
                            _ => self.err("struct index"),
                        };
                        off = off.wrapping_add(self.w.types.get(cur).offs[i]);
                        cur = f[i];
                        continue;
                    }
                    _ => self.err("gep into scalar"),
                }
            };
            first = false;
            cur = next;
            match &o {
                Opnd::C(Val::I(x)) => {
                    let x = crate::expr::sext128(*x as u128, iw) as u64;
                    off = off.wrapping_add(x.wrapping_mul(stride));
                }
                _ => idx.push((o, iw, stride)),
            }
        }
        (base, off, idx)
    }

    fn skip_param_attrs(&mut self) -> Option<u64> {
        // returns byval size if present
        let mut byval = None;
        loop {
            match self.peek() {
                b'%' | b'@' | b'-' | b'0'..=b'9' | b'{' | b'[' | b'<' | b',' | b')' => {
                    return byval
                }
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                    continue;
                }
                b'+' => return byval,
                b'c' if self.t.get(self.p + 1) == Some(&b'"') => return byval,
                _ => {}
            }
            let w = self.peek_word();
            match w {
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer"
                | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "none" | "trunc" | "sub"
                | "add" | "bitcast" | "zext" => return byval,
                "" => self.err("param attr"),
                "align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        self.num();
                    }
                }
                "byval" => {
                    self.word();
                    self.expect(b'(');
                    let t = self.ty();
                    self.expect(b')');
                    byval = Some(self.w.types.get(t).size);
                }
                _ => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }

    /// Skips linkage / cconv / return attributes in front of the return type.
    fn skip_ret_attrs(&mut self) {
        loop {
            match self.peek() {
                b'{' | b'[' | b'<' | b'%' => return,
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                    if self.eat(b'=') {
                        self.p += 1;
                        while self.t[self.p] != b'"' {
                            self.p += 1;
                        }
                        self.p += 1;
                    }
                    continue;
                }
                _ => {}
            }
            let w = self.peek_word();
            match w {
                "ptr" | "void" | "float" | "double" | "half" | "x86_fp80" | "fp128" => return,
                "align" => {
                    self.word();
                    self.num();
                }
                "cc" => {
                    self.word();
                    self.num();
                }
                "" => self.err("ret attrs"),
                _ => {
                    if w.starts_with('i') && w[1..].parse::<u32>().is_ok() {
                        return;
                    }
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }

    fn function(&mut self, slot: u32) -> Func {
        if self.word() != "define" {
            self.err("define");
        }
        self.skip_ret_attrs();
        let ret = self.ty();
        self.expect(b'@');
        let name = self.name();
        self.expect(b'(');
        let mut params = vec![];
        let mut ptys = vec![];
        let mut byval = vec![];
        let mut unnamed = 0;
        while !self.eat(b')') {
            if self.peek() == b'.' {
                self.p += 3;
                continue;
            }
            let t = self.ty();
            let bv = self.skip_param_attrs();
            byval.push(bv.unwrap_or(0));
            if self.peek() == b'%' {
                self.p += 1;
                let n = self.name();
                if n.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                params.push(self.reg(n));
            } else {
                let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                unnamed += 1;
                params.push(self.reg(n));
            }
            ptys.push(t);
            self.eat(b',');
        }
        // to the opening brace at end of line
        let mut q = false;
        while q || self.t[self.p] != b'{' || self.t[self.p + 1] != b'\n' {
            if self.t[self.p] == b'"' {
                q = !q;
            }
            self.p += 1;
        }
        self.p += 1;

        // blocks: find labels first
        let mut labels: FxMap<&'static str, u32> = Default::default();
        let mut nblocks = 0;
        {
            let mut q = self.p;
            let mut any = false;
            let mut insw = false;
            while q < self.t.len() {
                // at '\n'
                if self.t[q] != b'\n' {
                    q += 1;
                    continue;
                }
                q += 1;
                let e = memchr(b'\n', &self.t[q..]).map(|x| q + x).unwrap_or(self.t.len());
                let line = &self.t[q..e];
                if line.is_empty() {
                    continue;
                }
                let c = line[0];
                if c == b'}' {
                    break;
                }
                if c != b' ' && c != b';' {
                    let (a, b, n) = ident_end(line, 0);
                    if n < line.len() && line[n] == b':' {
                        labels.insert(st(&line[a..b]), nblocks);
                        nblocks += 1;
                        any = true;
                        q = e;
                        continue;
                    }
                }
                if !any && c == b' ' {
                    let nm: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                    labels.insert(nm, nblocks);
                    nblocks += 1;
                    any = true;
                }
                insw = insw || false;
                q = e;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        loop {
            // at end of previous line
            self.ws();
            if self.t[self.p] == b'}' {
                break;
            }
            // skip comments and debug records
            if self.t[self.p] == b';' || self.t[self.p] == b'#' {
                self.skip_line();
                continue;
            }
            // label?
            let (_, _, n) = if self.t[self.p] == b'%' { (0, 0, 0) } else { ident_end(self.t, self.p) };
            if n > 0 && n > self.p && self.t[n] == b':' && (self.p == 0 || self.t[self.p - 1] == b'\n') {
                self.p = n + 1;
                self.skip_line();
                blocks.push(Block { phis: vec![], ins: vec![] });
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block { phis: vec![], ins: vec![] });
            }
            let save = self.p;
            let line_end =
                memchr(b'\n', &self.t[self.p..]).map(|x| self.p + x).unwrap_or(self.t.len());
            match self.instr(&labels) {
                Some(Either::I(i)) => blocks.last_mut().unwrap().ins.push(i),
                Some(Either::P(d, v)) => blocks.last_mut().unwrap().phis.push((d, v)),
                None => {
                    let s = String::from_utf8_lossy(&self.t[save..line_end]).to_string();
                    blocks.last_mut().unwrap().ins.push(Ins::Unsupported(s));
                    self.p = line_end;
                }
            }
            // looking ahead may have moved past the end of the line
            while matches!(self.t[self.p - 1], b' ' | b'\n') {
                self.p -= 1;
            }
            self.skip_line();
        }
        assert_eq!(blocks.len() as u32, nblocks, "block count in {name}");
        Func { slot, name, params, ptys, ret, nregs: self.nregs, blocks, byval }
    }

    fn label(&mut self, labels: &FxMap<&'static str, u32>) -> u32 {
        if self.word() != "label" {
            self.err("label");
        }
        self.expect(b'%');
        let n = self.name();
        match labels.get(n) {
            Some(l) => *l,
            None => self.err("unknown label"),
        }
    }

    fn lanes(&self, t: Ty) -> (u32, u32) {
        // (element width, lanes; 0 lanes = scalar)
        match &self.w.types.get(t).k {
            TyK::Vec(n, e) => (self.w.types.get(*e).bits, *n as u32),
            _ => (self.w.types.get(t).bits, 0),
        }
    }

    fn skip_flags(&mut self, fl: &[&str]) {
        loop {
            let w = self.peek_word();
            if fl.contains(&w) {
                self.word();
                if self.peek() == b'(' {
                    self.skip_parens();
                }
            } else {
                return;
            }
        }
    }

    fn instr(&mut self, labels: &FxMap<&'static str, u32>) -> Option<Either> {
        let mut dst = None;
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.name();
            dst = Some(self.reg(n));
            self.expect(b'=');
        }
        let mut op = self.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = self.word();
        }
        use crate::expr::Op as E;
        const FL: &[&str] = &[
            "nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast",
            "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic",
            "inrange",
        ];
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor"
            | "shl" | "lshr" | "ashr" => {
                self.skip_flags(FL);
                let t = self.ty();
                let a = self.opnd(t);
                self.expect(b',');
                let b = self.opnd(t);
                let (w, lanes) = self.lanes(t);
                let op = match op {
                    "add" => E::Add,
                    "sub" => E::Sub,
                    "mul" => E::Mul,
                    "udiv" => E::UDiv,
                    "sdiv" => E::SDiv,
                    "urem" => E::URem,
                    "srem" => E::SRem,
                    "and" => E::And,
                    "or" => E::Or,
                    "xor" => E::Xor,
                    "shl" => E::Shl,
                    "lshr" => E::LShr,
                    _ => E::AShr,
                };
                Ins::Bin { op, w, lanes, dst: dst?, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_flags(FL);
                let t = self.ty();
                let a = self.opnd(t);
                self.expect(b',');
                let b = self.opnd(t);
                let (w, lanes) = self.lanes(t);
                if lanes != 0 {
                    return None;
                }
                Ins::FBin { op: op.as_bytes()[1], w, dst: dst?, a, b }
            }
            "fneg" => {
                self.skip_flags(FL);
                let (t, a) = self.ty_opnd();
                let w = self.w.types.get(t).bits;
                Ins::FNeg { w, dst: dst?, a }
            }
            "icmp" => {
                self.skip_flags(FL);
                let p = match self.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => self.err("icmp"),
                };
                let t = self.ty();
                let a = self.opnd(t);
                self.expect(b',');
                let b = self.opnd(t);
                let (w, lanes) = self.lanes(t);
                Ins::ICmp { p, w, lanes, dst: dst?, a, b }
            }
            "fcmp" => {
                self.skip_flags(FL);
                let p = self.word();
                let t = self.ty();
                let a = self.opnd(t);
                self.expect(b',');
                let b = self.opnd(t);
                let (w, lanes) = self.lanes(t);
                if lanes != 0 {
                    return None;
                }
                Ins::FCmp { p, w, dst: dst?, a, b }
            }
            "load" => {
                self.skip_flags(FL);
                let ty = self.ty();
                self.expect(b',');
                let (_, ptr) = self.ty_opnd();
                Ins::Load { dst: dst?, ty, ptr }
            }
            "store" => {
                self.skip_flags(FL);
                let (ty, val) = self.ty_opnd();
                self.expect(b',');
                let (_, ptr) = self.ty_opnd();
                Ins::Store { ty, val, ptr }
            }
            "getelementptr" => {
                self.skip_flags(FL);
                let (base, off, idx) = self.gep_body();
                Ins::Gep { dst: dst?, base, off, idx }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc"
            | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast"
            | "ptrtoaddr" => {
                self.skip_flags(FL);
                let (from, a) = self.ty_opnd();
                if self.word() != "to" {
                    self.err("to");
                }
                let to = self.ty();
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "bitcast" | "addrspacecast" => CastK::Bit,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (x, y) =
                            (self.w.types.get(from).bits, self.w.types.get(to).bits);
                        if x == y {
                            CastK::Bit
                        } else if x > y {
                            CastK::Trunc
                        } else {
                            CastK::ZExt
                        }
                    }
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    _ => CastK::SiToFp,
                };
                Ins::Cast { k, from, to, dst: dst?, a }
            }
            "select" => {
                self.skip_flags(FL);
                let (ct, c) = self.ty_opnd();
                self.expect(b',');
                let (ty, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                let clanes = self.lanes(ct).1;
                Ins::Select { dst: dst?, ty, clanes, c, a, b }
            }
            "freeze" => {
                let (_, a) = self.ty_opnd();
                Ins::Mov { dst: dst?, a }
            }
            "phi" => {
                self.skip_flags(FL);
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect(b'[');
                    let o = self.opnd(t);
                    self.expect(b',');
                    self.expect(b'%');
                    let n = self.name();
                    let l = match labels.get(n) {
                        Some(l) => *l,
                        None => self.err("phi label"),
                    };
                    v.push((l, o));
                    self.expect(b']');
                    // stay on this line
                    if self.t[self.p] == b',' && self.t[self.p + 1] == b' ' && self.t[self.p + 2] == b'[' {
                        self.p += 1;
                    } else {
                        break;
                    }
                }
                return Some(Either::P(dst?, v));
            }
            "call" | "invoke" => {
                self.skip_flags(FL);
                self.skip_ret_attrs();
                let ret = self.ty();
                if self.peek() == b'(' {
                    self.skip_parens(); // explicit function type (varargs)
                }
                let mut callee;
                if self.peek_word() == "asm" {
                    let e = memchr(b'\n', &self.t[self.p..]).map(|x| self.p + x).unwrap();
                    let line = &self.t[self.p..e];
                    let ident = find(line, b"\"/*${0:").is_some()
                        || (find(line, b" \"\", ").is_some() && find(line, b"=").is_some());
                    // two string literals
                    let mut q = 0;
                    while q < 4 {
                        if self.t[self.p] == b'"' {
                            q += 1;
                        }
                        self.p += 1;
                    }
                    if !ident {
                        return None;
                    }
                    callee = Callee::AsmIdent;
                } else if self.eat(b'@') {
                    let n = self.name();
                    if let Some(i) = n.strip_prefix("llvm.") {
                        callee = Callee::Intr(intrinsic(i), n);
                    } else {
                        callee = match self.w.sym(self.m, n) {
                            Sym::F(f) => Callee::Sym(f),
                            Sym::G(_) => {
                                let a = self.w.addr(self.m, n);
                                Callee::Sym(((a >> 32) - FN_BASE) as u32)
                            }
                        };
                    }
                } else {
                    let o = self.opnd(self.w.ty_ptr);
                    callee = match o {
                        Opnd::C(Val::I(a)) if (a >> 32) >= FN_BASE => {
                            Callee::Sym(((a >> 32) - FN_BASE) as u32)
                        }
                        o => Callee::Ind(o),
                    };
                }
                self.expect(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                let mut meta = false;
                while !self.eat(b')') {
                    let t = self.ty();
                    if self.w.types.get(t).k == TyK::Other {
                        // metadata argument: skip to matching , or )
                        meta = true;
                        let mut d = 0;
                        loop {
                            match self.t[self.p] {
                                b'(' | b'{' => d += 1,
                                b')' | b'}' if d > 0 => d -= 1,
                                b')' | b',' if d == 0 => break,
                                _ => {}
                            }
                            self.p += 1;
                        }
                    } else {
                        self.skip_param_attrs();
                        args.push(self.opnd(t));
                        tys.push(t);
                    }
                    self.eat(b',');
                }
                if meta {
                    if let Callee::Intr(k, _) = &mut callee {
                        *k = Intr::Nop;
                    }
                }
                let mut next = None;
                if op == "invoke" {
                    // attributes, then `to label %x unwind label %y`
                    loop {
                        self.ws();
                        if self.peek_word() == "to" {
                            self.word();
                            break;
                        }
                        match self.t[self.p] {
                            b'[' => {
                                while self.t[self.p] != b']' {
                                    self.p += 1;
                                }
                                self.p += 1;
                            }
                            b'(' => self.skip_parens(),
                            _ => self.p += 1,
                        }
                        while self.t[self.p].is_ascii_alphanumeric() && self.t[self.p - 1] != b' ' && self.t[self.p - 1] != b'\n' {
                            self.p += 1;
                        }
                    }
                    next = Some(self.label(labels));
                    if self.word() != "unwind" {
                        self.err("unwind");
                    }
                }
                Ins::Call { dst, ret, callee, args, tys, next }
            }
            "br" => {
                if self.peek_word() == "label" {
                    Ins::Br(self.label(labels))
                } else {
                    let (_, c) = self.ty_opnd();
                    self.expect(b',');
                    let t = self.label(labels);
                    self.expect(b',');
                    let f = self.label(labels);
                    Ins::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.ty_opnd();
                self.expect(b',');
                let def = self.label(labels);
                self.expect(b'[');
                let w = self.w.types.get(t).bits;
                let mut cases = vec![];
                let mut map: FxMap<u64, u32> = Default::default();
                while !self.eat(b']') {
                    let ct = self.ty();
                    let k = match self.konst(ct) {
                        Val::I(x) => x as u128,
                        Val::W(x) => *x,
                        _ => self.err("case"),
                    };
                    self.expect(b',');
                    let l = self.label(labels);
                    if k <= u64::MAX as u128 {
                        map.entry(k as u64).or_insert(l);
                    }
                    cases.push((k, l));
                }
                Ins::Switch { v, w, def, cases, map }
            }
            "ret" => {
                if self.eat_word("void") {
                    Ins::Ret(None)
                } else {
                    let (_, o) = self.ty_opnd();
                    Ins::Ret(Some(o))
                }
            }
            "unreachable" => Ins::Unreachable,
            "alloca" => {
                let t = self.ty();
                let size = self.w.types.get(t).size;
                let mut n = Opnd::C(Val::I(1));
                let mut align = 1;
                while self.t[self.p] == b',' {
                    self.p += 1;
                    if self.peek_word() == "align" {
                        self.word();
                        align = self.num() as u64;
                    } else if self.peek() == b'!' {
                        break;
                    } else {
                        n = self.ty_opnd().1;
                    }
                }
                Ins::Alloca { dst: dst?, size, n, align }
            }
            "extractvalue" => {
                let (_, a) = self.ty_opnd();
                let path = self.path();
                Ins::Extract { dst: dst?, a, path }
            }
            "insertvalue" => {
                let (_, a) = self.ty_opnd();
                self.expect(b',');
                let (_, v) = self.ty_opnd();
                let path = self.path();
                Ins::Insert { dst: dst?, a, v, path }
            }
            "atomicrmw" => {
                self.skip_flags(FL);
                let o = self.word();
                let (_, ptr) = self.ty_opnd();
                self.expect(b',');
                let (ty, v) = self.ty_opnd();
                Ins::Rmw { op: o, dst: dst?, ty, ptr, v }
            }
            "cmpxchg" => {
                self.skip_flags(&["weak", "volatile"]);
                let (_, ptr) = self.ty_opnd();
                self.expect(b',');
                let (ty, cmp) = self.ty_opnd();
                self.expect(b',');
                let (_, new) = self.ty_opnd();
                Ins::CmpXchg { dst: dst?, ty, ptr, cmp, new }
            }
            "fence" => Ins::Fence,
            "extractelement" => {
                let (_, v) = self.ty_opnd();
                self.expect(b',');
                let (_, i) = self.ty_opnd();
                Ins::ExtElem { dst: dst?, v, i }
            }
            "insertelement" => {
                let (_, v) = self.ty_opnd();
                self.expect(b',');
                let (_, e) = self.ty_opnd();
                self.expect(b',');
                let (_, i) = self.ty_opnd();
                Ins::InsElem { dst: dst?, v, e, i }
            }
            "shufflevector" => {
                let (t, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                self.expect(b',');
                let (mt, m) = self.ty_opnd();
                let n = self.lanes(t).1;
                let _ = mt;
                let m = match m {
                    Opnd::C(Val::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(x) => *x as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => self.err("shuffle mask"),
                };
                Ins::Shuffle { dst: dst?, a, b, n, m }
            }
            _ => return None,
        };
        Some(Either::I(i))
    }

    fn path(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.t[self.p] == b',' {
            if self.t[self.p + 2] == b'!' {
                break;
            }
            self.p += 1;
            v.push(self.num() as u32);
        }
        v
    }
}

enum Either {
    I(Ins),
    P(u32, Vec<(u32, Opnd)>),
}

fn intrinsic(n: &str) -> Intr {
    let table: &[(&str, Intr)] = &[
        ("lifetime.", Intr::Nop),
        ("experimental.noalias", Intr::Nop),
        ("dbg.", Intr::Nop),
        ("sideeffect", Intr::Nop),
        ("donothing", Intr::Nop),
        ("invariant.", Intr::Nop),
        ("prefetch", Intr::Nop),
        ("x86.sse2.pause", Intr::Nop),
        ("x86.sse2.pmovmskb", Intr::Pmovmskb),
        ("memcpy.", Intr::Memcpy),
        ("memmove.", Intr::Memcpy),
        ("memset.", Intr::Memset),
        ("expect.", Intr::Expect),
        ("assume", Intr::Assume),
        ("trap", Intr::Trap),
        ("ubsantrap", Intr::Trap),
        ("fshl.", Intr::Fshl),
        ("fshr.", Intr::Fshr),
        ("uadd.with.overflow", Intr::AddO(false)),
        ("sadd.with.overflow", Intr::AddO(true)),
        ("usub.with.overflow", Intr::SubO(false)),
        ("ssub.with.overflow", Intr::SubO(true)),
        ("umul.with.overflow", Intr::MulO(false)),
        ("smul.with.overflow", Intr::MulO(true)),
        ("umax.", Intr::UMax),
        ("umin.", Intr::UMin),
        ("smax.", Intr::SMax),
        ("smin.", Intr::SMin),
        ("ctpop.", Intr::Ctpop),
        ("ctlz.", Intr::Ctlz),
        ("cttz.", Intr::Cttz),
        ("is.constant", Intr::IsConstant),
        ("threadlocal.address", Intr::Tls),
        ("bswap.", Intr::Bswap),
        ("bitreverse.", Intr::Bitrev),
        ("usub.sat", Intr::USubSat),
        ("uadd.sat", Intr::UAddSat),
        ("ssub.sat", Intr::SSubSat),
        ("sadd.sat", Intr::SAddSat),
        ("ucmp.", Intr::UCmp),
        ("scmp.", Intr::SCmp),
        ("abs.", Intr::Abs),
        ("fabs.", Intr::FAbs),
        ("copysign.", Intr::CopySign),
        ("vector.reduce.and", Intr::VRedAnd),
        ("vector.reduce.or", Intr::VRedOr),
        ("vector.reduce.add", Intr::VRedAdd),
        ("objectsize", Intr::ObjSize),
        ("ptrmask", Intr::PtrMask),
    ];
    for (p, k) in table {
        if n.starts_with(p) {
            return *k;
        }
    }
    Intr::Unknown
}
