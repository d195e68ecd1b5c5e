//! Memory model: every allocation is an object with a concrete base address;
//! contents are bytes with an optional symbolic overlay; copy-on-write so that
//! states can be forked cheaply.
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

pub const HEAP: u64 = 2 << 60;
pub const STACK: u64 = 3 << 60;
const CH: usize = 32;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// empty, or one entry per byte: (expr, byte index); expr 0 = concrete
    pub sym: Vec<(X, u8)>,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![] }
    }
}

#[derive(Clone)]
pub struct Mem {
    heap: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: usize,
    pub stack: Vec<Rc<Obj>>,
    globals: Rc<FxMap<u32, Rc<Obj>>>,
    pub live: usize,
    empty: Rc<Vec<Option<Rc<Obj>>>>,
}

pub enum ObjRef<'a> {
    O(&'a Obj),
    Bytes(&'a [u8]),
}

impl Mem {
    pub fn new() -> Mem {
        Mem {
            heap: vec![],
            next: 0,
            stack: vec![],
            globals: Rc::new(FxMap::default()),
            live: 0,
            empty: Rc::new(vec![None; CH]),
        }
    }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let i = self.next;
        self.next += 1;
        let (c, s) = (i / CH, i % CH);
        if c == self.heap.len() {
            self.heap.push(self.empty.clone());
        }
        Rc::make_mut(&mut self.heap[c])[s] = Some(Rc::new(Obj::new(n)));
        self.live += 1;
        HEAP | ((i as u64) << 32)
    }
    pub fn free(&mut self, a: u64) -> Result<(), String> {
        let i = ((a & !HEAP) >> 32) as usize;
        if a >> 60 != HEAP >> 60 || a & 0xffff_ffff != 0 || i >= self.next {
            return Err(format!("invalid free {:#x}", a));
        }
        let (c, s) = (i / CH, i % CH);
        let nchunks = self.heap.len();
        let ch = Rc::make_mut(&mut self.heap[c]);
        if ch[s].take().is_none() {
            return Err(format!("double free {:#x}", a));
        }
        let all_none = (s == CH - 1 || c + 1 < nchunks) && ch.iter().all(|x| x.is_none());
        self.live -= 1;
        if all_none && c + 1 < nchunks {
            self.heap[c] = self.empty.clone();
        }
        Ok(())
    }
    pub fn push_stack(&mut self, n: usize) -> u64 {
        let i = self.stack.len();
        self.stack.push(Rc::new(Obj::new(n)));
        STACK | ((i as u64) << 32)
    }
    pub fn pop_stack(&mut self, to: usize) {
        self.stack.truncate(to);
    }

    #[inline]
    pub fn get<'a>(&'a self, p: &'a Program, a: u64) -> Result<ObjRef<'a>, String> {
        let i = ((a << 4) >> 36) as usize;
        match a >> 60 {
            2 => {
                let (c, s) = (i / CH, i % CH);
                if let Some(ch) = self.heap.get(c) {
                    if let Some(o) = &ch[s] {
                        return Ok(ObjRef::O(o));
                    }
                }
                Err(format!("access to dead heap object {:#x}", a))
            }
            3 => match self.stack.get(i) {
                Some(o) => Ok(ObjRef::O(o)),
                None => Err(format!("access to dead stack object {:#x}", a)),
            },
            1 => {
                if let Some(o) = self.globals.get(&(i as u32)) {
                    return Ok(ObjRef::O(o));
                }
                if i >= p.syms.len() {
                    return Err(format!("bad address {:#x}", a));
                }
                p.glob(i as u32);
                Ok(ObjRef::Bytes(&p.syms[i].glob.get().unwrap().bytes))
            }
            _ => Err(format!("invalid address {:#x}", a)),
        }
    }
    pub fn get_mut(&mut self, p: &Program, a: u64) -> Result<&mut Obj, String> {
        let i = ((a << 4) >> 36) as usize;
        match a >> 60 {
            2 => {
                let (c, s) = (i / CH, i % CH);
                if c < self.heap.len() && self.heap[c][s].is_some() {
                    let ch = Rc::make_mut(&mut self.heap[c]);
                    return Ok(Rc::make_mut(ch[s].as_mut().unwrap()));
                }
                Err(format!("write to dead heap object {:#x}", a))
            }
            3 => match self.stack.get_mut(i) {
                Some(o) => Ok(Rc::make_mut(o)),
                None => Err(format!("write to dead stack object {:#x}", a)),
            },
            1 => {
                if i >= p.syms.len() {
                    return Err(format!("bad address {:#x}", a));
                }
                let g = Rc::make_mut(&mut self.globals);
                if !g.contains_key(&(i as u32)) {
                    let gi = p.glob(i as u32);
                    if gi.constant {
                        return Err(format!("write to constant {}", p.syms[i].name));
                    }
                    g.insert(i as u32, Rc::new(Obj { data: gi.bytes.clone(), sym: vec![] }));
                }
                Ok(Rc::make_mut(g.get_mut(&(i as u32)).unwrap()))
            }
            _ => Err(format!("write to invalid address {:#x}", a)),
        }
    }
    pub fn size(&self, p: &Program, a: u64) -> Result<usize, String> {
        Ok(match self.get(p, a)? {
            ObjRef::O(o) => o.data.len(),
            ObjRef::Bytes(b) => b.len(),
        })
    }

    pub fn read(&self, p: &Program, ar: &mut Arena, a: u64, w: u8) -> Result<V, String> {
        let n = (w as usize + 7) / 8;
        let off = (a & 0xffff_ffff) as usize;
        let (data, sym): (&[u8], &[(X, u8)]) = match self.get(p, a)? {
            ObjRef::O(o) => (&o.data, &o.sym),
            ObjRef::Bytes(b) => (b, &[]),
        };
        if off + n > data.len() {
            return Err(format!("read of {} bytes at offset {} of a {}-byte object ({:#x})", n, off, data.len(), a));
        }
        if sym.is_empty() || sym[off..off + n].iter().all(|s| s.0 == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&data[off..off + n]);
            let v = u128::from_le_bytes(b);
            return Ok(if w <= 64 { V::I(v as u64 & mask64(w)) } else { V::from128(w, v) });
        }
        // one expression, aligned?
        let (x, k) = sym[off];
        if x != 0 && (0..n).all(|i| sym[off + i] == (x, k + i as u8)) {
            let e = ar.extract(x, k * 8, w);
            return Ok(to_v(ar, e));
        }
        let mut acc: Option<X> = None;
        let mut i = 0;
        while i < n {
            // group maximal runs
            let (x, k) = sym[off + i];
            let mut j = i + 1;
            let piece = if x == 0 {
                while j < n && sym[off + j].0 == 0 {
                    j += 1;
                }
                let mut v: u128 = 0;
                for q in (i..j).rev() {
                    v = (v << 8) | data[off + q] as u128;
                }
                ar.k(((j - i) * 8) as u8, v)
            } else {
                while j < n && sym[off + j] == (x, k + (j - i) as u8) {
                    j += 1;
                }
                ar.extract(x, k * 8, ((j - i) * 8) as u8)
            };
            acc = Some(match acc {
                None => piece,
                Some(l) => ar.concat(piece, l),
            });
            i = j;
        }
        let e = acc.unwrap();
        let e = ar.extract(e, 0, w);
        Ok(to_v(ar, e))
    }

    pub fn write(&mut self, p: &Program, ar: &mut Arena, a: u64, w: u8, v: &V) -> Result<(), String> {
        let n = (w as usize + 7) / 8;
        let off = (a & 0xffff_ffff) as usize;
        let o = self.get_mut(p, a)?;
        if off + n > o.data.len() {
            return Err(format!("write of {} bytes at offset {} of a {}-byte object ({:#x})", n, off, o.data.len(), a));
        }
        match v {
            V::I(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        s.0 = 0;
                    }
                }
            }
            V::W(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        s.0 = 0;
                    }
                }
            }
            V::E(e) => {
                let e = if w as usize != n * 8 { ar.zext(*e, (n * 8) as u8) } else { *e };
                if o.sym.is_empty() {
                    o.sym = vec![(0, 0); o.data.len()];
                }
                for i in 0..n {
                    o.sym[off + i] = (e, i as u8);
                }
            }
            V::A(_) => return Err("aggregate scalar store".into()),
        }
        Ok(())
    }

    pub fn copy(&mut self, p: &Program, dst: u64, src: u64, n: usize) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let so = (src & 0xffff_ffff) as usize;
        let (d, s) = match self.get(p, src)? {
            ObjRef::O(o) => {
                if so + n > o.data.len() {
                    return Err(format!("copy reads {} bytes at offset {} of a {}-byte object", n, so, o.data.len()));
                }
                (o.data[so..so + n].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[so..so + n].to_vec() })
            }
            ObjRef::Bytes(b) => {
                if so + n > b.len() {
                    return Err(format!("copy reads {} bytes at offset {} of a {}-byte object", n, so, b.len()));
                }
                (b[so..so + n].to_vec(), vec![])
            }
        };
        let off = (dst & 0xffff_ffff) as usize;
        let o = self.get_mut(p, dst)?;
        if off + n > o.data.len() {
            return Err(format!("copy writes {} bytes at offset {} of a {}-byte object", n, off, o.data.len()));
        }
        o.data[off..off + n].copy_from_slice(&d);
        if s.iter().any(|x| x.0 != 0) {
            if o.sym.is_empty() {
                o.sym = vec![(0, 0); o.data.len()];
            }
            o.sym[off..off + n].copy_from_slice(&s);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[off..off + n] {
                x.0 = 0;
            }
        }
        Ok(())
    }
}

pub fn to_v(ar: &Arena, x: X) -> V {
    match ar.as_const(x) {
        Some(k) => V::from128(ar.w(x), k),
        None => V::E(x),
    }
}
