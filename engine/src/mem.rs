//! Memory objects: concrete bytes plus an optional per-byte symbolic overlay, copy-on-write.

use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Constant,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// Same length as `data` when present; 0 means "the byte is concrete".
    pub sym: Option<Vec<u32>>,
    pub kind: Kind,
    pub align: u32,
}

impl Obj {
    pub fn global(data: Vec<u8>, constant: bool) -> Obj {
        Obj { data, sym: None, kind: if constant { Kind::Constant } else { Kind::Global }, align: 1 }
    }
    pub fn new(size: usize, kind: Kind, align: u32) -> Obj {
        Obj { data: vec![0; size], sym: None, kind, align }
    }
    #[inline]
    pub fn is_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|x| *x != 0),
        }
    }
    pub fn byte(&self, off: usize) -> Ex {
        if let Some(s) = &self.sym {
            if s[off] != 0 {
                return Ex(s[off]);
            }
        }
        cst(8, self.data[off] as u128)
    }
    /// Little-endian value of `n` bytes (n <= 16).
    pub fn read(&self, off: usize, n: usize) -> Ex {
        let mut e = self.byte(off);
        for i in 1..n {
            e = concat(self.byte(off + i), e);
        }
        e
    }
    pub fn write_conc(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym {
            for x in &mut s[off..off + b.len()] {
                *x = 0;
            }
        }
    }
    pub fn put(&mut self, off: usize, e: Ex) {
        debug_assert_eq!(width(e), 8);
        if let Some(k) = konst(e) {
            self.write_conc(off, &[k as u8]);
            return;
        }
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])[off] = e.0;
    }
    pub fn write_ex(&mut self, off: usize, e: Ex, n: usize) {
        let w = width(e);
        let e = if (w as usize) < n * 8 { zext(e, n as u32 * 8) } else { e };
        for i in 0..n {
            self.put(off + i, extract(e, i as u32 * 8 + 7, i as u32 * 8));
        }
    }
}

const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;

/// Heap objects by identifier; identifiers are never reused.
#[derive(Clone, Default)]
pub struct Heap {
    chunks: Vec<Option<Chunk>>,
    next: u32,
    pub live: u32,
}

impl Heap {
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        if c == self.chunks.len() {
            self.chunks.push(Some(Rc::new(vec![None; CH])));
        }
        Rc::make_mut(self.chunks[c].as_mut().unwrap())[id as usize % CH] = Some(Rc::new(o));
        self.live += 1;
        id
    }
    pub fn count(&self) -> u32 {
        self.next
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?.as_ref()?[id as usize % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?.as_mut()?;
        Rc::make_mut(c)[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u32) -> bool {
        let Some(Some(c)) = self.chunks.get_mut(id as usize / CH) else { return false };
        let c = Rc::make_mut(c);
        if c[id as usize % CH].take().is_none() {
            return false;
        }
        self.live -= 1;
        let full = id as usize / CH < self.next as usize / CH;
        if full && c.iter().all(|x| x.is_none()) {
            self.chunks[id as usize / CH] = None;
        }
        true
    }
}
