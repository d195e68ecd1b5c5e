//! Hash-consed bit-vector expressions with aggressive local simplification and
//! unsigned interval analysis.  Floating point values are carried as their IEEE
//! bit patterns (64-bit vectors).
use std::collections::BTreeMap;
use std::rc::Rc;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_i64(&mut self, x: i64) {
        self.write_u64(x as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = std::collections::HashSet<K, FxB>;

pub type X = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    // floating point (64 bit unless w says otherwise), on bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FLt,
    FEq,
    FNan,
    UiToFp, // exact, unsigned, arg < 2^53
    SiToFp,
    FpToUi,
    FpToSi,
    FpCvt, // between 32 and 64 bit
    FInt, // to an integral value: k = 0 down, 1 up, 2 to zero, 3 to nearest, ties away, 4 to nearest, ties to even
    Mod, // the value of a, known to be a canonical polynomial mod p
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: X,
    pub b: X,
    pub c: X,
    pub k: u128,
    pub lo: u64,
    pub hi: u64,
    pub slo: i64,
    pub shi: i64,
    pub h: u64, // structural hash, the same in every arena
    pub depth_leaves: u8, // number of const leaves if this is an ite-tree over constants (0: not)
}

#[derive(Clone)]
pub struct Var {
    pub name: String,
    pub w: u8,
    pub lo: u64,
    pub hi: u64,
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<(Op, u8, X, X, X, u128), X>,
    pub vars: Vec<Var>,
    /// per node, the longest alternation of additions and exclusive ors of unknown
    /// values that ends in an addition, or in an exclusive or
    mix: Vec<(u8, u8)>,
    pub t: X,
    pub f: X,
    polys: FxMap<(X, u32), Option<Rc<Poly>>>,
    mods: FxMap<X, Rc<Poly>>,
}

/// A polynomial mod p: monomial (sorted atoms with exponents) to coefficient.
/// Atoms are ordered by structural hash so that every arena agrees.
type Mono = Vec<((u64, X), u8)>;
type Poly = BTreeMap<Mono, u32>;
const POLY_TERMS: usize = 48;
const POLY_DEG: u32 = 14;

fn is_prime(p: u32) -> bool {
    p >= 2 && (2..p).take_while(|d| d * d <= p).all(|d| p % d != 0)
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mask64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext128(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}
pub fn sext64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w as u32;
        ((v << s) as i64) >> s
    }
}

const TWO53: u64 = 1 << 53;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: Vec::with_capacity(1 << 14),
            map: FxMap::default(),
            vars: vec![],
            mix: vec![],
            t: 0,
            f: 0,
            polys: FxMap::default(),
            mods: FxMap::default(),
        };
        // id 0 is reserved (means "concrete" in memory overlays)
        a.n.push(Node {
            op: Op::Const,
            w: 0,
            a: 0,
            b: 0,
            c: 0,
            k: 0,
            lo: 0,
            hi: 0,
            slo: 0,
            shi: 0,
            h: 0,
            depth_leaves: 0,
        });
        a.f = a.k(1, 0);
        a.t = a.k(1, 1);
        a
    }
    pub fn reset(&mut self) {
        *self = Arena::new();
    }
    /// Is this a hash of its variables (in the manner of SipHash)? No solver inverts
    /// it, its variables are followed value by value instead.
    pub fn mixed(&mut self, x: X) -> bool {
        for i in self.mix.len()..=x as usize {
            let n = &self.n[i];
            let (mut s, mut o) = (0, 0);
            for y in [n.a, n.b, n.c] {
                if (y as usize) < i {
                    s = s.max(self.mix[y as usize].0);
                    o = o.max(self.mix[y as usize].1);
                }
            }
            let open = |y: X| self.n[y as usize].op != Op::Const;
            match n.op {
                Op::Add | Op::Sub if open(n.a) && open(n.b) => s = s.max(o.saturating_add(1)),
                Op::Xor if open(n.a) && open(n.b) => o = o.max(s.saturating_add(1)),
                _ => {}
            }
            self.mix.push((s, o));
        }
        let (s, o) = self.mix[x as usize];
        s.max(o) >= 8
    }
    #[inline]
    pub fn w(&self, x: X) -> u8 {
        self.n[x as usize].w
    }
    #[inline]
    pub fn node(&self, x: X) -> &Node {
        &self.n[x as usize]
    }
    #[inline]
    pub fn as_const(&self, x: X) -> Option<u128> {
        let n = &self.n[x as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn is_const(&self, x: X) -> bool {
        self.n[x as usize].op == Op::Const
    }

    fn intern(&mut self, op: Op, w: u8, a: X, b: X, c: X, k: u128) -> X {
        if let Some(&i) = self.map.get(&(op, w, a, b, c, k)) {
            return i;
        }
        let mut nd = Node {
            op,
            w,
            a,
            b,
            c,
            k,
            lo: 0,
            hi: mask64(w.min(64)),
            slo: if w >= 64 { i64::MIN } else if w == 0 { 0 } else { -(1i64 << (w - 1)) },
            shi: if w >= 64 { i64::MAX } else if w == 0 { 0 } else { (1i64 << (w - 1)) - 1 },
            h: 0,
            depth_leaves: 0,
        };
        {
            let mut f = Fx(0x9e37);
            f.write_u8(op as u8);
            f.write_u8(w);
            if op == Op::Var {
                let v = &self.vars[k as usize];
                f.write(v.name.as_bytes());
                f.write_u64(v.lo);
                f.write_u64(v.hi);
            } else {
                f.write_u128(k);
            }
            for x in [a, b, c] {
                f.write_u64(if x == 0 { 0 } else { self.n[x as usize].h });
            }
            nd.h = f.finish();
        }
        if w <= 64 {
            self.ranges(&mut nd);
        }
        if op == Op::Const {
            nd.depth_leaves = 1;
        } else if op == Op::Ite {
            let l = self.n[b as usize].depth_leaves as u32;
            let r = self.n[c as usize].depth_leaves as u32;
            if l > 0 && r > 0 && l + r <= 24 {
                nd.depth_leaves = (l + r) as u8;
            }
        }
        let id = self.n.len() as X;
        self.n.push(nd);
        self.map.insert((op, w, a, b, c, k), id);
        id
    }

    /// order of commutative operands, the same in every arena
    fn before(&self, a: X, b: X) -> bool {
        (self.n[a as usize].h, a) < (self.n[b as usize].h, b)
    }

    fn ranges(&self, nd: &mut Node) {
        let g = |x: X| &self.n[x as usize];
        let w = nd.w;
        let m = mask64(w);
        let (mut lo, mut hi) = (0u64, m);
        let (mut slo, mut shi) = (nd.slo, nd.shi);
        match nd.op {
            Op::Const => {
                lo = nd.k as u64;
                hi = lo;
            }
            Op::Var => {
                let v = &self.vars[nd.k as usize];
                lo = v.lo;
                hi = v.hi;
            }
            Op::Add => {
                let (a, b) = (g(nd.a), g(nd.b));
                if let Some(h) = a.hi.checked_add(b.hi) {
                    if h <= m {
                        lo = a.lo + b.lo;
                        hi = h;
                    }
                }
                let l = a.slo as i128 + b.slo as i128;
                let h = a.shi as i128 + b.shi as i128;
                if l >= slo as i128 && h <= shi as i128 {
                    slo = l as i64;
                    shi = h as i64;
                }
            }
            Op::Sub => {
                let (a, b) = (g(nd.a), g(nd.b));
                if a.lo >= b.hi {
                    lo = a.lo - b.hi;
                    hi = a.hi - b.lo;
                }
                let l = a.slo as i128 - b.shi as i128;
                let h = a.shi as i128 - b.slo as i128;
                if l >= slo as i128 && h <= shi as i128 {
                    slo = l as i64;
                    shi = h as i64;
                }
            }
            Op::Mul => {
                let (a, b) = (g(nd.a), g(nd.b));
                let h = a.hi as u128 * b.hi as u128;
                if h <= m as u128 {
                    lo = a.lo * b.lo;
                    hi = h as u64;
                }
                let ps = [
                    a.slo as i128 * b.slo as i128,
                    a.slo as i128 * b.shi as i128,
                    a.shi as i128 * b.slo as i128,
                    a.shi as i128 * b.shi as i128,
                ];
                let l = *ps.iter().min().unwrap();
                let h = *ps.iter().max().unwrap();
                if l >= slo as i128 && h <= shi as i128 {
                    slo = l as i64;
                    shi = h as i64;
                }
            }
            Op::Mod => {
                let a = g(nd.a);
                (lo, hi, slo, shi) = (a.lo, a.hi, a.slo, a.shi);
            }
            Op::UDiv => {
                let (a, b) = (g(nd.a), g(nd.b));
                if b.lo > 0 {
                    lo = a.lo / b.hi;
                    hi = a.hi / b.lo;
                }
            }
            Op::URem => {
                let (a, b) = (g(nd.a), g(nd.b));
                if b.lo > 0 {
                    hi = a.hi.min(b.hi - 1);
                } else {
                    hi = a.hi;
                }
            }
            Op::SRem => {
                let (a, b) = (g(nd.a), g(nd.b));
                if b.slo > 0 {
                    let mm = b.shi - 1;
                    slo = if a.slo < 0 { (-mm).max(a.slo) } else { 0 };
                    shi = if a.shi > 0 { mm.min(a.shi) } else { 0 };
                }
            }
            Op::And => {
                let (a, b) = (g(nd.a), g(nd.b));
                hi = a.hi.min(b.hi);
            }
            Op::Or | Op::Xor => {
                let (a, b) = (g(nd.a), g(nd.b));
                let h = a.hi | b.hi;
                hi = if h == 0 { 0 } else { u64::MAX >> h.leading_zeros() };
                if nd.op == Op::Or {
                    lo = a.lo.max(b.lo);
                }
            }
            Op::Ite => {
                let (a, b) = (g(nd.b), g(nd.c));
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
                slo = a.slo.min(b.slo);
                shi = a.shi.max(b.shi);
            }
            Op::ZExt => {
                let a = g(nd.a);
                lo = a.lo;
                hi = a.hi;
            }
            Op::SExt => {
                let a = g(nd.a);
                slo = a.slo;
                shi = a.shi;
            }
            Op::Extract => {
                let a = g(nd.a);
                if a.w <= 64 {
                    if nd.k == 0 && a.hi <= m {
                        lo = a.lo;
                        hi = a.hi;
                    } else if nd.k as u32 + w as u32 == a.w as u32 {
                        lo = a.lo >> nd.k;
                        hi = a.hi >> nd.k;
                    }
                    if nd.k == 0 && a.slo >= slo && a.shi <= shi {
                        slo = a.slo;
                        shi = a.shi;
                    }
                }
            }
            Op::Concat => {
                let (a, b) = (g(nd.a), g(nd.b));
                lo = (a.lo << b.w) | b.lo;
                hi = (a.hi << b.w) | b.hi;
            }
            Op::UiToFp => {
                let a = g(nd.a);
                lo = (a.lo as f64).to_bits();
                hi = (a.hi as f64).to_bits();
            }
            Op::FInt if self.fnn(nd.a) => {
                let a = g(nd.a);
                lo = Self::integral(nd.k as u8, w, a.lo as u128) as u64;
                hi = Self::integral(nd.k as u8, w, a.hi as u128) as u64;
            }
            Op::FpCvt if self.fnn(nd.a) => {
                let a = g(nd.a);
                lo = Self::cvt(w, a.lo as u128) as u64;
                hi = Self::cvt(w, a.hi as u128) as u64;
            }
            _ => {}
        }
        // cross-tighten
        let sb = if w == 0 { 0 } else { 1u64 << (w - 1) };
        if hi < sb {
            slo = slo.max(lo as i64);
            shi = shi.min(hi as i64);
        } else if lo >= sb {
            slo = slo.max(sext64(lo, w));
            shi = shi.min(sext64(hi, w));
        }
        if slo >= 0 {
            lo = lo.max(slo as u64);
            hi = hi.min(shi as u64);
        } else if shi < 0 {
            lo = lo.max(slo as u64 & m);
            hi = hi.min(shi as u64 & m);
        }
        if lo > hi || slo > shi {
            // contradictory (dead) – fall back to anything sound
            lo = 0;
            hi = m;
            slo = nd.slo;
            shi = nd.shi;
        }
        nd.lo = lo;
        nd.hi = hi;
        nd.slo = slo;
        nd.shi = shi;
    }

    // ---------------------------------------------------------------- builders
    pub fn k(&mut self, w: u8, v: u128) -> X {
        self.intern(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn new_var(&mut self, name: &str, w: u8, lo: u64, hi: u64) -> X {
        let i = self.vars.len();
        self.vars.push(Var { name: name.to_string(), w, lo, hi });
        self.intern(Op::Var, w, 0, 0, 0, i as u128)
    }
    /// Variable number `i` (created on demand: numbering is the creation order along a path,
    /// so that the same variable ids can be shared between sibling paths of one worker).
    pub fn var_at(&mut self, name: &str, w: u8, lo: u64, hi: u64) -> X {
        for (i, v) in self.vars.iter().enumerate() {
            if v.w == w && v.lo == lo && v.hi == hi && v.name == name {
                return self.intern(Op::Var, w, 0, 0, 0, i as u128);
            }
        }
        self.new_var(name, w, lo, hi)
    }

    pub fn var(&mut self, i: u32) -> X {
        let w = self.vars[i as usize].w;
        self.intern(Op::Var, w, 0, 0, 0, i as u128)
    }

    fn leaves(&self, x: X) -> u32 {
        self.n[x as usize].depth_leaves as u32
    }
    fn map_ite(&mut self, x: X, f: &mut dyn FnMut(&mut Arena, X) -> X) -> X {
        let n = self.n[x as usize];
        if n.op == Op::Ite {
            let b = self.map_ite(n.b, f);
            let c = self.map_ite(n.c, f);
            self.ite(n.a, b, c)
        } else {
            f(self, x)
        }
    }

    pub fn not(&mut self, a: X) -> X {
        let n = self.n[a as usize];
        match n.op {
            Op::Const => return self.k(n.w, !n.k),
            Op::Not => return n.a,
            Op::Ite if n.depth_leaves > 0 => return self.map_ite(a, &mut |s, y| s.not(y)),
            _ => {}
        }
        self.intern(Op::Not, n.w, a, 0, 0, 0)
    }

    pub fn fold(op: Op, w: u8, a: u128, b: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    if x >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let x = sext128(a, w);
                let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
                (x >> s) as u128
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                if w == 64 {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    (match op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        _ => x / y,
                    })
                    .to_bits() as u128
                } else {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    (match op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        _ => x / y,
                    })
                    .to_bits() as u128
                }
            }
            Op::FLt => {
                if w == 64 {
                    (f64::from_bits(a as u64) < f64::from_bits(b as u64)) as u128
                } else {
                    (f32::from_bits(a as u32) < f32::from_bits(b as u32)) as u128
                }
            }
            Op::FEq => {
                if w == 64 {
                    (f64::from_bits(a as u64) == f64::from_bits(b as u64)) as u128
                } else {
                    (f32::from_bits(a as u32) == f32::from_bits(b as u32)) as u128
                }
            }
            _ => unreachable!("fold {:?}", op),
        };
        match op {
            Op::Eq | Op::Ult | Op::Slt | Op::FLt | Op::FEq => r,
            _ => r & m,
        }
    }

    pub fn bin(&mut self, op: Op, a: X, b: X) -> X {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = Self::fold(op, w, x, y);
            let rw = match op {
                Op::Eq | Op::Ult | Op::Slt | Op::FLt | Op::FEq => 1,
                _ => w,
            };
            return self.k(rw, r);
        }
        // distribute over small ite trees with constant leaves
        let (la, lb) = (self.leaves(a), self.leaves(b));
        if la > 0 && lb > 0 && w > 1 || (la > 0 && lb > 0 && !matches!(op, Op::And | Op::Or | Op::Xor)) {
            if la > 1 && lb == 1 {
                return self.map_ite(a, &mut |s, y| s.bin(op, y, b));
            }
            if la == 1 && lb > 1 {
                return self.map_ite(b, &mut |s, y| s.bin(op, a, y));
            }
            if la * lb <= 24 {
                return self.map_ite(a, &mut |s, y| s.map_ite(b, &mut |s2, z| s2.bin(op, y, z)));
            }
        }
        // arithmetic on small values is done at the width it needs
        if w > 8 && w <= 64 && matches!(op, Op::Add | Op::Mul | Op::UDiv | Op::URem) {
            let (ha, hb) = (self.n[a as usize].hi as u128, self.n[b as usize].hi as u128);
            let m = match op {
                Op::Add => ha + hb,
                Op::Mul => ha * hb,
                _ => ha.max(hb),
            };
            let k = (128 - m.leading_zeros()).max(1) as u8;
            let small_rem = op == Op::URem && self.as_const(b).map_or(false, |y| y <= 64);
            if !small_rem && k + 4 <= w && k <= 32 && (op != Op::Add || !self.is_const(b) && !self.is_const(a)) && (!matches!(op, Op::UDiv | Op::URem) || self.n[b as usize].lo > 0) {
                let (ta, tb) = (self.trunc(a, k), self.trunc(b, k));
                let r = self.bin(op, ta, tb);
                return self.zext(r, w);
            }
        }
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => {
                if a == b {
                    return self.k(w, 0);
                }
                if let Some(y) = self.as_const(b) {
                    if y == 0 {
                        return a;
                    }
                    let nb = self.k(w, y.wrapping_neg());
                    return self.add(a, nb);
                }
                // (x + y) - y
                let na = self.n[a as usize];
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                self.intern(Op::Sub, w, a, b, 0, 0)
            }
            Op::Mul => self.mul(a, b),
            Op::UDiv => {
                if let Some(y) = self.as_const(b) {
                    if y == 1 {
                        return a;
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = y.trailing_zeros() as u128;
                        let kb = self.k(w, s);
                        return self.bin(Op::LShr, a, kb);
                    }
                    if y > 1 && w <= 64 {
                        if let Some((q, _)) = self.split_linear(a, y) {
                            return q;
                        }
                    }
                }
                if w <= 64 && self.node(a).hi < self.node(b).lo {
                    return self.k(w, 0);
                }
                self.intern(op, w, a, b, 0, 0)
            }
            Op::URem => {
                if let Some(y) = self.as_const(b) {
                    if y != 0 && y.is_power_of_two() {
                        let kb = self.k(w, y - 1);
                        return self.bin(Op::And, a, kb);
                    }
                }
                if w <= 64 && self.node(a).hi < self.node(b).lo {
                    return a;
                }
                if let Some(y) = self.as_const(b) {
                    if y > 1 && w <= 64 {
                        if let Some((_, r)) = self.split_linear(a, y) {
                            return r;
                        }
                    }
                    if w <= 64 && y > 2 && y <= 64 {
                        return self.rem_poly(a, y as u32);
                    }
                }
                self.intern(op, w, a, b, 0, 0)
            }
            Op::SDiv | Op::SRem => {
                if w <= 64 && self.node(a).slo >= 0 && self.node(b).slo > 0 {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
                if op == Op::SDiv && self.as_const(b) == Some(1) {
                    return a;
                }
                self.intern(op, w, a, b, 0, 0)
            }
            Op::Shl => {
                if let Some(y) = self.as_const(b) {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.k(w, 0);
                    }
                    let hi = self.extract(a, 0, w - y as u8);
                    let z = self.k(y as u8, 0);
                    return self.concat(hi, z);
                }
                if self.as_const(a) == Some(0) {
                    return a;
                }
                self.intern(op, w, a, b, 0, 0)
            }
            Op::LShr => {
                if let Some(y) = self.as_const(b) {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.k(w, 0);
                    }
                    let e = self.extract(a, y as u8, w - y as u8);
                    return self.zext(e, w);
                }
                if self.as_const(a) == Some(0) {
                    return a;
                }
                self.intern(op, w, a, b, 0, 0)
            }
            Op::AShr => {
                if let Some(y) = self.as_const(b) {
                    if y == 0 {
                        return a;
                    }
                    if w <= 64 && self.node(a).slo >= 0 {
                        return self.bin(Op::LShr, a, b);
                    }
                    let y = if y >= w as u128 { w as u128 - 1 } else { y };
                    let e = self.extract(a, y as u8, w - y as u8);
                    return self.sext(e, w);
                }
                self.intern(op, w, a, b, 0, 0)
            }
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::FAdd | Op::FMul => self.fadd_mul(op, a, b),
            Op::FSub | Op::FDiv => {
                // few values: a table
                let (x, y) = (self.table(a), self.table(b));
                if let (Some(x), Some(y)) = (x, y) {
                    if w == 64 && self.leaves(x).max(1) * self.leaves(y).max(1) <= 144 {
                        return self.map_ite(x, &mut |ar, u| ar.map_ite(y, &mut |ar, v| {
                            let k = Arena::fold(op, w, ar.as_const(u).unwrap(), ar.as_const(v).unwrap());
                            ar.k(w, k)
                        }));
                    }
                }
                self.intern(op, w, a, b, 0, 0)
            }
            Op::FLt => {
                if self.fnn(a) && self.fnn(b) {
                    return self.ult(a, b);
                }
                for (u, v) in [(a, b), (b, a)] {
                    let (Some(_), Op::Ite) = (self.as_const(u), self.node(v).op) else { continue };
                    if let Some(v) = self.table(v) {
                        return self.map_ite(v, &mut |ar, v| if u == a { ar.bin(op, u, v) } else { ar.bin(op, v, u) });
                    }
                }
                self.intern(op, 1, a, b, 0, 0)
            }
            Op::FEq => {
                if self.fnn(a) && self.fnn(b) {
                    return self.eq(a, b);
                }
                let (a, b) = if self.before(a, b) { (a, b) } else { (b, a) };
                self.intern(op, 1, a, b, 0, 0)
            }
            _ => unreachable!(),
        }
    }
    /// known to be non-NaN, with a clear sign bit
    /// `x` as a polynomial mod p over atoms, if its value (not its bit pattern
    /// mod 2^w) is congruent to one.
    fn poly(&mut self, x: X, p: u32) -> Option<Rc<Poly>> {
        if let Some(r) = self.polys.get(&(x, p)) {
            return r.clone();
        }
        let n = self.n[x as usize];
        let m = mask64(n.w.min(64)) as u128;
        let hi = |s: &Self, y: X| s.n[y as usize].hi as u128;
        let lo = |s: &Self, y: X| s.n[y as usize].lo as u128;
        let mut r: Option<Option<Rc<Poly>>> = None;
        match n.op {
            Op::Const => {
                let c = (n.k % p as u128) as u32;
                let mut q = Poly::new();
                if c != 0 {
                    q.insert(vec![], c);
                }
                r = Some(Some(Rc::new(q)));
            }
            Op::Mod if n.k as u32 == p => r = Some(Some(self.mods[&x].clone())),
            Op::ZExt => r = Some(self.poly(n.a, p)),
            Op::Extract if n.k == 0 && self.w(n.a) <= 64 && hi(self, n.a) <= m => r = Some(self.poly(n.a, p)),
            Op::Add if hi(self, n.a) + hi(self, n.b) <= m => {
                let (a, b) = (self.poly(n.a, p), self.poly(n.b, p));
                r = Some(match (a, b) {
                    (Some(a), Some(b)) => self.poly_add(&a, &b, 1, p),
                    _ => None,
                });
            }
            Op::Add if self.is_const(n.b) && n.w <= 64 => {
                let c = (m + 1) - self.n[n.b as usize].k;
                if lo(self, n.a) >= c {
                    let a = self.poly(n.a, p);
                    let mut k = Poly::new();
                    k.insert(vec![], (p as u128 - c % p as u128) as u32 % p);
                    k.retain(|_, v| *v != 0);
                    r = Some(a.and_then(|a| self.poly_add(&a, &k, 1, p)));
                }
            }
            Op::Sub if lo(self, n.a) >= hi(self, n.b) => {
                let (a, b) = (self.poly(n.a, p), self.poly(n.b, p));
                r = Some(match (a, b) {
                    (Some(a), Some(b)) => self.poly_add(&a, &b, p - 1, p),
                    _ => None,
                });
            }
            Op::Mul if n.w <= 64 && hi(self, n.a) * hi(self, n.b) <= m => {
                let (a, b) = (self.poly(n.a, p), self.poly(n.b, p));
                r = Some(match (a, b) {
                    (Some(a), Some(b)) => self.poly_mul(&a, &b, p),
                    _ => None,
                });
            }
            Op::Shl if n.w <= 64 => {
                if let Some(k) = self.as_const(n.b) {
                    if k < 64 && (hi(self, n.a) << k) <= m {
                        let a = self.poly(n.a, p);
                        let mut q = Poly::new();
                        q.insert(vec![], ((1u128 << k) % p as u128) as u32);
                        q.retain(|_, v| *v != 0);
                        r = Some(a.and_then(|a| self.poly_mul(&a, &q, p)));
                    }
                }
            }
            Op::Concat if n.w <= 64 => {
                // high * 2^k + low
                let k = self.w(n.b) as u32;
                let (a, b) = (self.poly(n.a, p), self.poly(n.b, p));
                let mut q = Poly::new();
                q.insert(vec![], ((1u128 << k) % p as u128) as u32);
                q.retain(|_, v| *v != 0);
                r = Some(match (a, b) {
                    (Some(a), Some(b)) => self.poly_mul(&a, &q, p).and_then(|a| self.poly_add(&a, &b, 1, p)),
                    _ => None,
                });
            }
            Op::URem => {
                if let Some(y) = self.as_const(n.b) {
                    if y != 0 && y % p as u128 == 0 {
                        r = Some(self.poly(n.a, p));
                    }
                }
            }
            Op::Ite => {
                // x < k ? x : x - k with p | k, or equal branches
                let (t, e) = (n.b, n.c);
                let ne = self.n[e as usize];
                let mut same = false;
                if ne.op == Op::Add && ne.a == t && n.w <= 64 {
                    if let Some(c) = self.as_const(ne.b) {
                        let k = (m + 1) - c;
                        let nc = self.n[n.a as usize];
                        if k % p as u128 == 0 && nc.op == Op::Ult && nc.a == t && self.as_const(nc.b).map_or(false, |z| z >= k) {
                            same = true;
                        }
                    }
                }
                if same {
                    r = Some(self.poly(t, p));
                } else {
                    let (a, b) = (self.poly(t, p), self.poly(e, p));
                    if let (Some(a), Some(b)) = (a, b) {
                        if a == b {
                            r = Some(Some(a));
                        }
                    }
                }
            }
            _ => {}
        }
        let r = match r {
            Some(Some(q)) => Some(q),
            Some(None) if n.op == Op::ZExt || n.op == Op::Extract => None,
            _ => {
                // an atom; zero extensions never are, so equal values share one
                let mut q = Poly::new();
                q.insert(vec![((n.h, x), 1)], 1);
                Some(Rc::new(q))
            }
        };
        self.polys.insert((x, p), r.clone());
        r
    }
    fn poly_add(&self, a: &Poly, b: &Poly, kb: u32, p: u32) -> Option<Rc<Poly>> {
        let mut q = a.clone();
        for (m, c) in b {
            let e = q.entry(m.clone()).or_insert(0);
            *e = (*e + c * kb) % p;
        }
        q.retain(|_, v| *v != 0);
        if q.len() > POLY_TERMS {
            return None;
        }
        Some(Rc::new(q))
    }
    fn poly_mul(&self, a: &Poly, b: &Poly, p: u32) -> Option<Rc<Poly>> {
        if a.len() * b.len() > 4 * POLY_TERMS {
            return None;
        }
        let prime = is_prime(p);
        let mut q = Poly::new();
        for (m, c) in a {
            for (n, d) in b {
                let mut t: Mono = m.clone();
                for &(x, e) in n {
                    match t.binary_search_by_key(&x, |y| y.0) {
                        Ok(i) => t[i].1 += e,
                        Err(i) => t.insert(i, (x, e)),
                    }
                }
                if prime {
                    for i in (0..t.len()).rev() {
                        let (x, e) = t[i];
                        let nd = &self.n[x.1 as usize];
                        // Fermat: a^p = a, and a^(p-1) = 1 for a not divisible by p
                        let nz = nd.lo >= 1 && nd.hi < p as u64;
                        let mut e = e as u32;
                        if nz {
                            e %= p - 1;
                        } else if e >= p {
                            e = (e - 1) % (p - 1) + 1;
                        }
                        if e == 0 {
                            t.remove(i);
                        } else {
                            t[i].1 = e as u8;
                        }
                    }
                }
                if t.iter().map(|y| y.1 as u32).sum::<u32>() > POLY_DEG {
                    return None;
                }
                let e = q.entry(t).or_insert(0);
                *e = (*e + c * d) % p;
            }
        }
        q.retain(|_, v| *v != 0);
        if q.len() > POLY_TERMS {
            return None;
        }
        Some(Rc::new(q))
    }
    /// Change the width of a value known to fit.
    fn fit(&mut self, x: X, w: u8) -> X {
        if self.w(x) > w {
            self.trunc(x, w)
        } else {
            self.zext(x, w)
        }
    }
    fn raw_rem(&mut self, a: X, p: u32) -> X {
        let n = self.n[a as usize];
        if n.hi < p as u64 {
            return a;
        }
        let k = self.k(n.w, p as u128);
        self.intern(Op::URem, n.w, a, k, 0, 0)
    }
    /// `a mod p` through its canonical polynomial.
    fn rem_poly(&mut self, a: X, p: u32) -> X {
        let w = self.w(a);
        let kb = self.k(w, p as u128);
        let Some(q) = self.poly(a, p) else {
            return self.intern(Op::URem, w, a, kb, 0, 0);
        };
        if q.is_empty() {
            return self.k(w, 0);
        }
        if q.len() == 1 {
            let (m, &c) = q.iter().next().unwrap();
            if m.is_empty() {
                return self.k(w, c as u128);
            }
            if c == 1 && m.len() == 1 && m[0].1 == 1 {
                let r = self.raw_rem(m[0].0 .1, p);
                return self.fit(r, w);
            }
        }
        let b = ((32 - (p - 1).leading_zeros()) as u8).max(2);
        let prime = is_prime(p);
        let mut sum: Option<X> = None;
        let mut nonzero = prime && q.len() == 1;
        for (m, &c) in q.iter() {
            let mut t = if m.is_empty() || c != 1 { Some(self.k(b, c as u128)) } else { None };
            for &((_, x), e) in m {
                let n = self.n[x as usize];
                nonzero &= n.lo >= 1 && n.hi < p as u64;
                let r = self.raw_rem(x, p);
                let r = self.fit(r, b);
                for _ in 0..e {
                    t = Some(match t {
                        None => r,
                        Some(t) => {
                            let (y, z) = (self.zext(t, 2 * b), self.zext(r, 2 * b));
                            let (y, z) = if self.is_const(y) || (!self.is_const(z) && self.before(z, y)) { (z, y) } else { (y, z) };
                            let mm = self.intern(Op::Mul, 2 * b, y, z, 0, 0);
                            let rr = self.raw_rem(mm, p);
                            self.trunc(rr, b)
                        }
                    });
                }
            }
            let t = t.unwrap();
            sum = Some(match sum {
                None => t,
                Some(s) => {
                    let (y, z) = (self.zext(s, b + 1), self.zext(t, b + 1));
                    let ss = self.intern(Op::Add, b + 1, y, z, 0, 0);
                    let rr = self.raw_rem(ss, p);
                    self.trunc(rr, b)
                }
            });
        }
        let raw = sum.unwrap();
        // what is known of the value follows from the polynomial, not from history
        let mut f = Fx(p as u64);
        for (m, &c) in q.iter() {
            for &((h, _), e) in m {
                f.write_u64(h);
                f.write_u8(e);
            }
            f.write_u32(c);
        }
        let r = self.intern(Op::Mod, b, raw, 0, 0, p as u128 | (f.finish() as u128) << 32);
        let n = &mut self.n[r as usize];
        n.hi = n.hi.min(p as u64 - 1);
        if nonzero {
            n.lo = n.lo.max(1);
        }
        self.mods.insert(r, q);
        self.fit(r, w)
    }

    pub fn fnn(&self, a: X) -> bool {
        let n = self.node(a);
        (n.w == 64 && n.hi <= 0x7ff0_0000_0000_0000) || (n.w == 32 && n.hi <= 0x7f80_0000)
    }
    pub fn fnan(&mut self, a: X) -> X {
        let n = *self.node(a);
        if self.fnn(a) {
            return self.f;
        }
        if let Some(k) = self.as_const(a) {
            let nan = if n.w == 64 { f64::from_bits(k as u64).is_nan() } else { f32::from_bits(k as u32).is_nan() };
            return if nan { self.t } else { self.f };
        }
        if n.op == Op::Ite {
            let x = self.fnan(n.b);
            let y = self.fnan(n.c);
            return self.ite(n.a, x, y);
        }
        if n.op == Op::SiToFp || n.op == Op::UiToFp {
            return self.f;
        }
        self.intern(Op::FNan, 1, a, 0, 0, 0)
    }
    /// an expression e (w<=64) with value < 2^53 such that x is the double of e
    fn as_intf(&mut self, x: X) -> Option<X> {
        let n = *self.node(x);
        if n.op == Op::UiToFp {
            return Some(n.a);
        }
        if n.op == Op::Const && n.w == 64 {
            let f = f64::from_bits(n.k as u64);
            if f >= 0.0 && f.fract() == 0.0 && f < TWO53 as f64 && n.k != 1u128 << 63 {
                return Some(self.k(64, f as u64 as u128));
            }
        }
        None
    }
    fn fadd_mul(&mut self, op: Op, a: X, b: X) -> X {
        let w = self.w(a);
        if w == 64 {
            if let (Some(x), Some(y)) = (self.as_intf(a), self.as_intf(b)) {
                let x = self.zext(x, 64);
                let y = self.zext(y, 64);
                let (hx, hy) = (self.node(x).hi, self.node(y).hi);
                let ok = if op == Op::FAdd {
                    hx.checked_add(hy).map_or(false, |s| s < TWO53)
                } else {
                    hx.checked_mul(hy).map_or(false, |s| s < TWO53)
                };
                if ok {
                    let s = self.bin(if op == Op::FAdd { Op::Add } else { Op::Mul }, x, y);
                    return self.uitofp(s);
                }
            }
            // ite operands: push inside when one side is an ite over int-valued floats
            for (p, q, sw) in [(a, b, false), (b, a, true)] {
                let n = *self.node(p);
                if n.op == Op::Ite && self.as_intf(q).is_some() && self.depth_small(p, 6) {
                    let l = if sw { self.fadd_mul2(op, q, n.b) } else { self.fadd_mul2(op, n.b, q) };
                    let r = if sw { self.fadd_mul2(op, q, n.c) } else { self.fadd_mul2(op, n.c, q) };
                    return self.ite(n.a, l, r);
                }
            }
        }
        let (a, b) = if self.before(a, b) { (a, b) } else { (b, a) };
        self.intern(op, w, a, b, 0, 0)
    }
    fn fadd_mul2(&mut self, op: Op, a: X, b: X) -> X {
        self.bin(op, a, b)
    }
    /// `x` as a choice between constants, if it has few values.
    fn table(&mut self, x: X) -> Option<X> {
        let n = *self.node(x);
        match n.op {
            Op::Const => Some(x),
            Op::UiToFp => {
                let (lo, hi) = (self.node(n.a).lo, self.node(n.a).hi);
                if hi - lo >= 12 {
                    return None;
                }
                let mut r = self.k(64, (hi as f64).to_bits() as u128);
                for v in (lo..hi).rev() {
                    let w = self.w(n.a);
                    let k = self.k(w, v as u128);
                    let e = self.eq(n.a, k);
                    let t = self.k(64, (v as f64).to_bits() as u128);
                    r = self.ite(e, t, r);
                }
                Some(r)
            }
            Op::Ite if n.depth_leaves > 0 => Some(x),
            _ => None,
        }
    }
    fn depth_small(&self, x: X, d: u32) -> bool {
        let n = self.node(x);
        if n.op != Op::Ite {
            return true;
        }
        d > 0 && self.depth_small(n.b, d - 1) && self.depth_small(n.c, d - 1)
    }
    pub fn uitofp(&mut self, a: X) -> X {
        if let Some(k) = self.as_const(a) {
            return self.k(64, (k as u64 as f64).to_bits() as u128);
        }
        let a = self.strip_zext(a);
        self.intern(Op::UiToFp, 64, a, 0, 0, 0)
    }
    fn strip_zext(&self, a: X) -> X {
        let n = self.node(a);
        if n.op == Op::ZExt {
            n.a
        } else {
            a
        }
    }
    /// `a` converted between 32 and 64 bit
    pub fn fpcvt(&mut self, w: u8, a: X) -> X {
        if let Some(a) = self.table(a) {
            return self.map_ite(a, &mut |ar, u| {
                let k = Arena::cvt(w, ar.as_const(u).unwrap());
                ar.k(w, k)
            });
        }
        self.intern(Op::FpCvt, w, a, 0, 0, 0)
    }
    /// `a` rounded to an integral value
    pub fn fint(&mut self, mode: u8, a: X) -> X {
        if self.node(a).op == Op::UiToFp {
            return a;
        }
        let w = self.w(a);
        if let Some(a) = self.table(a) {
            return self.map_ite(a, &mut |ar, u| {
                let k = Arena::integral(mode, w, ar.as_const(u).unwrap());
                ar.k(w, k)
            });
        }
        self.intern(Op::FInt, w, a, 0, 0, mode as u128)
    }
    pub fn integral(mode: u8, w: u8, k: u128) -> u128 {
        macro_rules! go {
            ($f: expr) => {
                match mode {
                    0 => $f.floor(),
                    1 => $f.ceil(),
                    2 => $f.trunc(),
                    3 => $f.round(),
                    _ => $f.round_ties_even(),
                }
                .to_bits() as u128
            };
        }
        if w == 64 {
            go!(f64::from_bits(k as u64))
        } else {
            go!(f32::from_bits(k as u32))
        }
    }
    fn cvt(w: u8, k: u128) -> u128 {
        if w == 64 {
            (f32::from_bits(k as u32) as f64).to_bits() as u128
        } else {
            (f64::from_bits(k as u64) as f32).to_bits() as u128
        }
    }
    pub fn fp1(&mut self, op: Op, w: u8, a: X) -> X {
        self.intern(op, w, a, 0, 0, 0)
    }

    fn add(&mut self, a: X, b: X) -> X {
        let w = self.w(a);
        let (mut a, mut b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if let Some(y) = self.as_const(b) {
            if y == 0 {
                return a;
            }
            let na = self.n[a as usize];
            if na.op == Op::Add {
                if let Some(z) = self.as_const(na.b) {
                    let kb = self.k(w, y.wrapping_add(z));
                    return self.add(na.a, kb);
                }
            }
        } else {
            // pull constants outward
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.op == Op::Add && self.is_const(na.b) {
                let s = self.add(na.a, b);
                return self.add(s, na.b);
            }
            if nb.op == Op::Add && self.is_const(nb.b) {
                let s = self.add(a, nb.a);
                return self.add(s, nb.b);
            }
            // (x - y) + y
            if na.op == Op::Sub && na.b == b {
                return na.a;
            }
            if nb.op == Op::Sub && nb.b == a {
                return nb.a;
            }
            if self.before(b, a) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.intern(Op::Add, w, a, b, 0, 0)
    }
    fn mul(&mut self, a: X, b: X) -> X {
        let w = self.w(a);
        let (mut a, mut b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if let Some(y) = self.as_const(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let s = self.k(w, y.trailing_zeros() as u128);
                return self.bin(Op::Shl, a, s);
            }
            let na = self.n[a as usize];
            if na.op == Op::Mul {
                if let Some(z) = self.as_const(na.b) {
                    let kb = self.k(w, y.wrapping_mul(z));
                    return self.mul(na.a, kb);
                }
            }
        } else if self.before(b, a) {
            std::mem::swap(&mut a, &mut b);
        }
        self.intern(Op::Mul, w, a, b, 0, 0)
    }
    fn and(&mut self, a: X, b: X) -> X {
        let w = self.w(a);
        let (mut a, mut b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if a == b {
            return a;
        }
        if let Some(y) = self.as_const(b) {
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            // contiguous low mask -> zext(extract)
            if (y & (y + 1)) == 0 {
                let bits = y.count_ones() as u8;
                let e = self.extract(a, 0, bits);
                return self.zext(e, w);
            }
            // other masks: push through concat
            let na = self.n[a as usize];
            if na.op == Op::Concat {
                let wl = self.w(na.b);
                let yl = self.k(wl, y);
                let yh = self.k(w - wl, y >> wl);
                let h = self.and(na.a, yh);
                let l = self.and(na.b, yl);
                return self.concat(h, l);
            }
            if na.op == Op::ZExt {
                let wi = self.w(na.a);
                let yl = self.k(wi, y);
                let l = self.and(na.a, yl);
                return self.zext(l, w);
            }
        } else {
            if w == 1 {
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                    return self.f;
                }
                if na.op == Op::And && (na.a == b || na.b == b) {
                    return a;
                }
                if nb.op == Op::And && (nb.a == a || nb.b == a) {
                    return b;
                }
                // two comparisons of the same values
                if matches!(na.op, Op::Ult | Op::Slt) && nb.op == na.op && na.a == nb.b && na.b == nb.a {
                    return self.f;
                }
                if na.op == Op::Not && nb.op == Op::Not {
                    let (ca, cb) = (self.n[na.a as usize], self.n[nb.a as usize]);
                    if matches!(ca.op, Op::Ult | Op::Slt) && cb.op == ca.op && ca.a == cb.b && ca.b == cb.a {
                        return self.eq(ca.a, ca.b);
                    }
                }
            }
            if self.before(b, a) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.intern(Op::And, w, a, b, 0, 0)
    }
    fn or(&mut self, a: X, b: X) -> X {
        let w = self.w(a);
        let (mut a, mut b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if a == b {
            return a;
        }
        if w == 1 {
            if let Some(y) = self.as_const(b) {
                return if y == 0 { a } else { b };
            }
            // canonical form: De Morgan so that And/Not are the only boolean connectives
            let na = self.not(a);
            let nb = self.not(b);
            let n = self.and(na, nb);
            return self.not(n);
        }
        if let Some(y) = self.as_const(b) {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
        }
        // disjoint concat merging
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        for (p, q, qi) in [(na, nb, b), (nb, na, a)] {
            let _ = q;
            if p.op == Op::Concat {
                let wl = self.w(p.b);
                if self.as_const(p.b) == Some(0) {
                    // low part of p is zero
                    let qh = self.extract(qi, wl, w - wl);
                    let ql = self.extract(qi, 0, wl);
                    let h = self.or(p.a, qh);
                    return self.concat(h, ql);
                }
                let qh = self.extract(qi, wl, w - wl);
                let ql = self.extract(qi, 0, wl);
                if self.is_const(qh) || self.is_const(ql) {
                    let h = self.or(p.a, qh);
                    let l = self.or(p.b, ql);
                    return self.concat(h, l);
                }
            }
            if p.op == Op::ZExt {
                let wi = self.w(p.a);
                let qh = self.extract(qi, wi, w - wi);
                let ql = self.extract(qi, 0, wi);
                if self.is_const(ql) || self.as_const(qh) == Some(0) || self.is_const(qh) {
                    let l = self.or(p.a, ql);
                    return self.concat(qh, l);
                }
            }
        }
        if !self.is_const(b) && self.before(b, a) {
            std::mem::swap(&mut a, &mut b);
        }
        self.intern(Op::Or, w, a, b, 0, 0)
    }
    fn xor(&mut self, a: X, b: X) -> X {
        let w = self.w(a);
        let (mut a, mut b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if a == b {
            return self.k(w, 0);
        }
        if let Some(y) = self.as_const(b) {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return self.not(a);
            }
            let na = self.n[a as usize];
            if na.op == Op::Xor {
                if let Some(z) = self.as_const(na.b) {
                    let kb = self.k(w, y ^ z);
                    return self.xor(na.a, kb);
                }
            }
            // high bits untouched / zext
            if na.op == Op::ZExt {
                let wi = self.w(na.a);
                let kl = self.k(wi, y);
                let kh = self.k(w - wi, y >> wi);
                let l = self.xor(na.a, kl);
                return self.concat(kh, l);
            }
        } else {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.op == Op::Not && nb.op == Op::Not {
                return self.xor(na.a, nb.a);
            }
            if w == 1 {
                if na.op == Op::Not {
                    let r = self.xor(na.a, b);
                    return self.not(r);
                }
                if nb.op == Op::Not {
                    let r = self.xor(a, nb.a);
                    return self.not(r);
                }
            }
            if na.op == Op::Xor && (na.a == b || na.b == b) {
                return if na.a == b { na.b } else { na.a };
            }
            if nb.op == Op::Xor && (nb.a == a || nb.b == a) {
                return if nb.a == a { nb.b } else { nb.a };
            }
            if self.before(b, a) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.intern(Op::Xor, w, a, b, 0, 0)
    }

    fn linear(&self, x: X) -> Option<(Vec<(u128, X)>, u128)> {
        self.linear_in(x, 0, &mut 400)
    }
    /// `x` as a sum of multiples of atoms that does not wrap: (coefficient, atom)
    /// terms ordered by atom, and a constant.
    fn linear_in(&self, x: X, d: u32, fuel: &mut u32) -> Option<(Vec<(u128, X)>, u128)> {
        let n = self.n[x as usize];
        if n.w > 64 || d > 120 || *fuel == 0 {
            return None;
        }
        *fuel -= 1;
        let scaled = |me: &Self, y: X, k: u128, fuel: &mut u32| -> Option<(Vec<(u128, X)>, u128)> {
            let (t, c) = me.linear_in(y, d + 1, fuel)?;
            Some((t.into_iter().map(|(q, z)| (q * k, z)).collect(), c * k))
        };
        let top = mask(n.w);
        match n.op {
            Op::Const => return Some((vec![], n.k)),
            Op::ZExt => return self.linear_in(n.a, d + 1, fuel),
            Op::Add => {
                let s = self.n[n.a as usize].hi as u128 + self.n[n.b as usize].hi as u128;
                if s <= top {
                    let (mut t, c) = self.linear_in(n.a, d + 1, fuel)?;
                    let (u, e) = self.linear_in(n.b, d + 1, fuel)?;
                    for (q, z) in u {
                        match t.iter_mut().find(|y| y.1 == z) {
                            Some(y) => y.0 += q,
                            None => t.push((q, z)),
                        }
                    }
                    if t.len() > 32 {
                        return None;
                    }
                    return Some((t, c + e));
                }
            }
            Op::Mul => {
                if let Some(k) = self.as_const(n.b) {
                    if self.n[n.a as usize].hi as u128 * k <= top {
                        return scaled(self, n.a, k, fuel);
                    }
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if wl < 64 {
                    let (mut t, c) = scaled(self, n.a, 1 << wl, fuel)?;
                    let (u, e) = self.linear_in(n.b, d + 1, fuel)?;
                    for (q, z) in u {
                        match t.iter_mut().find(|y| y.1 == z) {
                            Some(y) => y.0 += q,
                            None => t.push((q, z)),
                        }
                    }
                    return if t.len() > 32 { None } else { Some((t, c + e)) };
                }
            }
            _ => {}
        }
        Some((vec![(1, x)], 0))
    }
    /// largest value of a sum
    fn linear_hi(&self, t: &[(u128, X)], c: u128) -> u128 {
        t.iter().map(|&(q, x)| q * self.n[x as usize].hi as u128).sum::<u128>() + c
    }
    /// the sum as an expression; its value must fit
    fn from_linear(&mut self, t: &[(u128, X)], c: u128, w: u8) -> X {
        let mut t = t.to_vec();
        t.sort_by_key(|&(_, x)| (self.n[x as usize].h, x));
        let mut s: Option<X> = None;
        for (q, x) in t {
            if q == 0 {
                continue;
            }
            let x = self.fit(x, w);
            let k = self.k(w, q);
            let y = self.bin(Op::Mul, x, k);
            s = Some(match s {
                None => y,
                Some(z) => self.bin(Op::Add, z, y),
            });
        }
        let k = self.k(w, c);
        match s {
            None => k,
            Some(s) => self.bin(Op::Add, s, k),
        }
    }
    /// Quotient and remainder by `y` of a sum whose terms split cleanly.
    fn split_linear(&mut self, a: X, y: u128) -> Option<(X, X)> {
        let w = self.w(a);
        let (t, c) = self.linear(a)?;
        if t.len() == 1 && t[0].0 == 1 {
            return None;
        }
        let lo: Vec<(u128, X)> = t.iter().map(|&(q, x)| (q % y, x)).filter(|x| x.0 != 0).collect();
        if self.linear_hi(&lo, c % y) >= y {
            return None;
        }
        let hi: Vec<(u128, X)> = t.iter().map(|&(q, x)| (q / y, x)).filter(|x| x.0 != 0).collect();
        Some((self.from_linear(&hi, c / y, w), self.from_linear(&lo, c % y, w)))
    }
    /// Two sums less what they have in common, terms or a factor, if anything.
    fn without_common(&mut self, a: X, b: X) -> Option<(X, X)> {
        let w = self.w(a);
        let (mut ta, mut ca) = self.linear(a)?;
        let (mut tb, mut cb) = self.linear(b)?;
        let c = ca.min(cb);
        ca -= c;
        cb -= c;
        let mut any = c > 0;
        for x in ta.iter_mut() {
            if let Some(y) = tb.iter_mut().find(|y| y.1 == x.1) {
                let q = x.0.min(y.0);
                x.0 -= q;
                y.0 -= q;
                any |= q > 0;
            }
        }
        let mut g = 0;
        for k in ta.iter().chain(tb.iter()).map(|x| x.0).chain([ca, cb]) {
            let (mut x, mut y) = (g, k);
            while y != 0 {
                (x, y) = (y, x % y);
            }
            g = x;
        }
        if g > 1 {
            any = true;
            ca /= g;
            cb /= g;
            ta.iter_mut().chain(tb.iter_mut()).for_each(|x| x.0 /= g);
        }
        any.then(|| (self.from_linear(&ta, ca, w), self.from_linear(&tb, cb, w)))
    }
    /// Equality of two sums in a common mixed radix, digit by digit.
    fn eq_linear(&mut self, a: X, b: X) -> Option<X> {
        let w = self.w(a);
        if !self.is_const(a) && !self.is_const(b) {
            if let Some((x, y)) = self.without_common(a, b) {
                return Some(self.eq(x, y));
            }
        }
        let (ta, ca) = self.linear(a)?;
        let (tb, cb) = self.linear(b)?;
        let mut ks: Vec<u128> = ta.iter().chain(tb.iter()).map(|x| x.0).collect();
        ks.sort();
        ks.dedup();
        for &y in ks.iter().skip(1) {
            if y < 2 {
                continue;
            }
            let part = |t: &[(u128, X)], high: bool| -> Vec<(u128, X)> { t.iter().map(|&(q, x)| (if high { q / y } else { q % y }, x)).filter(|x| x.0 != 0).collect() };
            let (la, lb) = (part(&ta, false), part(&tb, false));
            if self.linear_hi(&la, ca % y) < y && self.linear_hi(&lb, cb % y) < y {
                let (ha, hb) = (part(&ta, true), part(&tb, true));
                let (x, z) = (self.from_linear(&la, ca % y, w), self.from_linear(&lb, cb % y, w));
                let lo = self.eq(x, z);
                let (x, z) = (self.from_linear(&ha, ca / y, w), self.from_linear(&hb, cb / y, w));
                let hi = self.eq(x, z);
                return Some(self.bin(Op::And, hi, lo));
            }
        }
        None
    }

    pub fn eq(&mut self, a: X, b: X) -> X {
        if a == b {
            return self.t;
        }
        let w = self.w(a);
        let (mut a, mut b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if w == 1 {
            let x = self.bin(Op::Xor, a, b);
            return self.not(x);
        }
        if w <= 64 {
            let (na, nb) = (self.node(a), self.node(b));
            if na.hi < nb.lo || nb.hi < na.lo || na.shi < nb.slo || nb.shi < na.slo {
                return self.f;
            }
        }
        let na = self.n[a as usize];
        if let Some(y) = self.as_const(b) {
            match na.op {
                Op::Const => return self.k(1, (na.k == y) as u128),
                Op::Ite if na.depth_leaves > 0 => {
                    return self.map_ite(a, &mut |s, z| s.eq(z, b));
                }
                Op::Ite => {
                    // one const branch
                    if self.is_const(na.b) || self.is_const(na.c) {
                        let l = self.eq(na.b, b);
                        let r = self.eq(na.c, b);
                        if self.is_const(l) || self.is_const(r) {
                            return self.ite(na.a, l, r);
                        }
                    }
                }
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if y > mask(wi) {
                        return self.f;
                    }
                    let kb = self.k(wi, y);
                    return self.eq(na.a, kb);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let t = y & mask(wi);
                    if (sext128(t, wi) as u128) & mask(w) != y {
                        return self.f;
                    }
                    let kb = self.k(wi, t);
                    return self.eq(na.a, kb);
                }
                Op::Add => {
                    if let Some(z) = self.as_const(na.b) {
                        let kb = self.k(w, y.wrapping_sub(z));
                        return self.eq(na.a, kb);
                    }
                }
                Op::Sub => {
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Xor => {
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(z) = self.as_const(na.b) {
                        let kb = self.k(w, y ^ z);
                        return self.eq(na.a, kb);
                    }
                }
                Op::Not => {
                    let kb = self.k(w, !y);
                    return self.eq(na.a, kb);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kl = self.k(wl, y);
                    let kh = self.k(w - wl, y >> wl);
                    let l = self.eq(na.b, kl);
                    let h = self.eq(na.a, kh);
                    return self.bin(Op::And, h, l);
                }
                Op::UiToFp => {
                    let f = f64::from_bits(y as u64);
                    if !(f >= 0.0 && f.fract() == 0.0 && f < TWO53 as f64) {
                        return self.f;
                    }
                    let wi = self.w(na.a);
                    let v = f as u64 as u128;
                    if v > mask(wi) {
                        return self.f;
                    }
                    let kb = self.k(wi, v);
                    return self.eq(na.a, kb);
                }
                _ => {}
            }
        } else {
            let nb = self.n[b as usize];
            if na.op == Op::ZExt && nb.op == Op::ZExt || na.op == Op::UiToFp && nb.op == Op::UiToFp {
                let (x, y) = self.unify_w(na.a, nb.a);
                return self.eq(x, y);
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Not && nb.op == Op::Not {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let l = self.eq(na.b, nb.b);
                let h = self.eq(na.a, nb.a);
                return self.bin(Op::And, h, l);
            }
            if na.op == Op::Add && nb.op == Op::Add {
                if na.a == nb.a {
                    return self.eq(na.b, nb.b);
                }
                if na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
            }
            if w > 4 && w <= 64 && (matches!(na.op, Op::Add | Op::Mul) || matches!(nb.op, Op::Add | Op::Mul)) {
                if let Some(r) = self.eq_linear(a, b) {
                    return r;
                }
            }
            if self.before(b, a) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.intern(Op::Eq, 1, a, b, 0, 0)
    }
    fn unify_w(&mut self, a: X, b: X) -> (X, X) {
        let (wa, wb) = (self.w(a), self.w(b));
        let m = wa.max(wb);
        (self.zext(a, m), self.zext(b, m))
    }

    pub fn ult(&mut self, a: X, b: X) -> X {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if w == 1 {
            let n = self.not(a);
            return self.bin(Op::And, n, b);
        }
        if w <= 64 {
            if na.hi < nb.lo {
                return self.t;
            }
            if na.lo >= nb.hi {
                return self.f;
            }
        }
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k(1, (x < y) as u128);
        }
        if na.depth_leaves > 0 && nb.depth_leaves > 0 && (na.depth_leaves == 1 || nb.depth_leaves == 1) {
            return if na.depth_leaves > 1 {
                self.map_ite(a, &mut |s, z| s.ult(z, b))
            } else {
                self.map_ite(b, &mut |s, z| s.ult(a, z))
            };
        }
        if kb == Some(1) {
            let z = self.k(w, 0);
            return self.eq(a, z);
        }
        if ka == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (x, y) = self.unify_w(na.a, nb.a);
            return self.ult(x, y);
        }
        if na.op == Op::ZExt {
            if let Some(y) = kb {
                let wi = self.w(na.a);
                if y > mask(wi) {
                    return self.t;
                }
                let k = self.k(wi, y);
                return self.ult(na.a, k);
            }
        }
        if nb.op == Op::ZExt {
            if let Some(x) = ka {
                let wi = self.w(nb.a);
                if x >= mask(wi) {
                    return self.f;
                }
                let k = self.k(wi, x);
                return self.ult(k, nb.a);
            }
        }
        if na.op == Op::UiToFp && nb.op == Op::UiToFp {
            let (x, y) = self.unify_w(na.a, nb.a);
            return self.ult(x, y);
        }
        if na.op == Op::UiToFp {
            if let Some(y) = kb {
                let f = f64::from_bits(y as u64);
                let wi = self.w(na.a);
                let n = f.ceil();
                if f.is_nan() || n > mask64(wi) as f64 {
                    if y as u64 <= 0x7ff0_0000_0000_0000 {
                        return self.t;
                    }
                } else {
                    let k = self.k(wi, n as u64 as u128);
                    return self.ult(na.a, k);
                }
            }
        }
        if nb.op == Op::UiToFp {
            if let Some(x) = ka {
                let f = f64::from_bits(x as u64);
                let wi = self.w(nb.a);
                let n = f.floor();
                if f.is_nan() || n >= mask64(wi) as f64 {
                    return self.f;
                } else if f >= 0.0 {
                    let k = self.k(wi, n as u64 as u128);
                    return self.ult(k, nb.a);
                }
            }
        }
        // x + c < y with no-overflow: normalise when both ranges are safe
        if w <= 64 {
            if let (Op::Add, Some(y)) = (na.op, kb) {
                if let Some(c) = self.as_const(na.b) {
                    let n0 = self.node(na.a);
                    if n0.hi as u128 + c <= mask(w) {
                        // no wrap
                        if y <= c {
                            return self.f;
                        }
                        let k = self.k(w, y - c);
                        return self.ult(na.a, k);
                    }
                }
            }
            if let (Some(x), Op::Add) = (ka, nb.op) {
                if let Some(c) = self.as_const(nb.b) {
                    let n0 = self.node(nb.a);
                    if n0.hi as u128 + c <= mask(w) {
                        if x < c {
                            return self.t;
                        }
                        let k = self.k(w, x - c);
                        return self.ult(k, nb.a);
                    }
                }
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                let (p, q, r) = (self.node(na.a).hi, self.node(nb.a).hi, self.node(na.b).hi);
                if p as u128 + r as u128 <= mask(w) && q as u128 + r as u128 <= mask(w) {
                    return self.ult(na.a, nb.a);
                }
            }
            let sum = |op| matches!(op, Op::Add | Op::Mul);
            if ka.is_none() && kb.is_none() && (sum(na.op) || sum(nb.op)) {
                if let Some((x, y)) = self.without_common(a, b) {
                    return self.ult(x, y);
                }
            }
        }
        self.intern(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: X, b: X) -> X {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k(1, (sext128(x, w) < sext128(y, w)) as u128);
        }
        if w <= 64 {
            if na.shi < nb.slo {
                return self.t;
            }
            if na.slo >= nb.shi {
                return self.f;
            }
            if (na.slo >= 0 && nb.slo >= 0) || (na.shi < 0 && nb.shi < 0) {
                return self.ult(a, b);
            }
        }
        if na.depth_leaves > 0 && nb.depth_leaves > 0 && (na.depth_leaves == 1 || nb.depth_leaves == 1) {
            return if na.depth_leaves > 1 {
                self.map_ite(a, &mut |s, z| s.slt(z, b))
            } else {
                self.map_ite(b, &mut |s, z| s.slt(a, z))
            };
        }
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if na.op == Op::SExt {
            if let Some(y) = kb {
                let wi = self.w(na.a);
                let s = sext128(y, w);
                if (sext128(y & mask(wi), wi)) == s {
                    let k = self.k(wi, y);
                    return self.slt(na.a, k);
                }
            }
        }
        if nb.op == Op::SExt {
            if let Some(x) = ka {
                let wi = self.w(nb.a);
                let s = sext128(x, w);
                if (sext128(x & mask(wi), wi)) == s {
                    let k = self.k(wi, x);
                    return self.slt(k, nb.a);
                }
            }
        }
        self.intern(Op::Slt, 1, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: X, a: X, b: X) -> X {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        // x == y ? y : x
        if nc.op == Op::Eq && ((nc.a == b && nc.b == a) || (nc.a == a && nc.b == b)) {
            return b;
        }
        // x ? float(x) : 0.0 for a single bit
        let na = self.n[a as usize];
        if na.op == Op::UiToFp && self.as_const(b) == Some(0) {
            let mut y = na.a;
            while self.n[y as usize].op == Op::ZExt {
                y = self.n[y as usize].a;
            }
            if y == c {
                return a;
            }
        }
        // x == 0 ? 0.0 : float(x)
        let nb = self.n[b as usize];
        if nc.op == Op::Eq && self.as_const(a) == Some(0) && nb.op == Op::UiToFp {
            let mut y = nb.a;
            loop {
                if nc.a == y && self.as_const(nc.b) == Some(0) {
                    return b;
                }
                let ny = self.n[y as usize];
                if ny.op != Op::ZExt {
                    break;
                }
                y = ny.a;
            }
        }
        let w = self.w(a);
        if w == 1 {
            let (ka, kb) = (self.as_const(a), self.as_const(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let (mut a, mut b) = (a, b);
        let na = self.n[a as usize];
        if na.op == Op::Ite && na.a == c {
            a = na.b;
        }
        let nb = self.n[b as usize];
        if nb.op == Op::Ite && nb.a == c {
            b = nb.c;
        }
        if a == b {
            return a;
        }
        // ite(c, ite(d,x,y), y) -> ite(c&d, x, y)
        let na = self.n[a as usize];
        if na.op == Op::Ite && na.c == b {
            let cd = self.bin(Op::And, c, na.a);
            return self.ite(cd, na.b, b);
        }
        let nb = self.n[b as usize];
        if nb.op == Op::Ite && nb.b == a {
            let cd = self.bin(Op::Or, c, nb.a);
            return self.ite(cd, a, nb.c);
        }
        self.intern(Op::Ite, w, c, a, b, 0)
    }

    pub fn zext(&mut self, a: X, w: u8) -> X {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        debug_assert!(w > n.w);
        match n.op {
            Op::Const => return self.k(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if n.depth_leaves > 0 => return self.map_ite(a, &mut |s, y| s.zext(y, w)),
            _ => {}
        }
        self.intern(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: X, w: u8) -> X {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.k(w, sext128(n.k, n.w) as u128),
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite if n.depth_leaves > 0 => return self.map_ite(a, &mut |s, y| s.sext(y, w)),
            _ => {}
        }
        if n.w > 1 && n.w <= 64 && n.slo >= 0 {
            return self.zext(a, w);
        }
        if n.w == 1 {
            let (x, y) = (self.k(w, u128::MAX), self.k(w, 0));
            return self.ite(a, x, y);
        }
        self.intern(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: X, w: u8) -> X {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: X, lo: u8, w: u8) -> X {
        let n = self.n[a as usize];
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo as u32 + w as u32 <= n.w as u32);
        match n.op {
            Op::Const => return self.k(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u8 + lo, w),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.k(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, wi - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo < wi {
                    let e = self.extract(n.a, lo, wi - lo);
                    return self.sext(e, w);
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let l = self.extract(n.a, lo, w);
                let r = self.extract(n.b, lo, w);
                return self.bin(n.op, l, r);
            }
            Op::Not => {
                let l = self.extract(n.a, lo, w);
                return self.not(l);
            }
            Op::Ite => {
                let l = self.extract(n.b, lo, w);
                let r = self.extract(n.c, lo, w);
                return self.ite(n.a, l, r);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let l = self.extract(n.a, 0, w);
                let r = self.extract(n.b, 0, w);
                return self.bin(n.op, l, r);
            }
            _ => {}
        }
        if n.w <= 64 && lo < 64 && (n.hi >> lo) == 0 {
            return self.k(w, 0);
        }
        self.intern(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: X, l: X) -> X {
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        let w = nh.w + nl.w;
        if nh.op == Op::Const {
            if nl.op == Op::Const {
                return self.k(w, (nh.k << nl.w) | nl.k);
            }
            if nh.k == 0 {
                return self.zext(l, w);
            }
        }
        if nh.op == Op::ZExt {
            let i = self.concat(nh.a, l);
            return self.zext(i, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.k + nl.w as u128 == nh.k {
            return self.extract(nh.a, nl.k as u8, w);
        }
        // concat(extract(x, lw..), x') where low is x truncated to a prefix chain
        if nl.op == Op::Concat {
            // right-assoc merge: concat(h, concat(m, l)) with h,m adjacent
            let hm = {
                let nm = self.n[nl.a as usize];
                nh.op == Op::Extract && nm.op == Op::Extract && nh.a == nm.a && nm.k + nm.w as u128 == nh.k
                    || nh.op == Op::Const && nm.op == Op::Const
            };
            if hm {
                let m = self.concat(h, nl.a);
                return self.concat(m, nl.b);
            }
        }
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat_raw_or(nh.a, r);
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.op == Op::Const && nl.op == Op::Ite && nl.depth_leaves > 0 {
            return self.map_ite(l, &mut |s, y| s.concat(h, y));
        }
        if nl.op == Op::Const && nh.op == Op::Ite && nh.depth_leaves > 0 {
            return self.map_ite(h, &mut |s, y| s.concat(y, l));
        }
        // byte-wise ite parts of the same ite
        self.intern(Op::Concat, w, h, l, 0, 0)
    }
    fn concat_raw_or(&mut self, h: X, l: X) -> X {
        // h is not a Concat (left-leaning chains are re-associated to the right)
        let nh = self.n[h as usize];
        if nh.op == Op::Concat {
            return self.concat(h, l);
        }
        let nl = self.n[l as usize];
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.k(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.k + nl.w as u128 == nh.k {
            return self.extract(nh.a, nl.k as u8, w);
        }
        self.intern(Op::Concat, w, h, l, 0, 0)
    }

    // ---------------------------------------------------------------- evaluation
    pub fn eval(&self, x: X, model: &[u64], memo: &mut FxMap<X, u128>) -> u128 {
        let n = &self.n[x as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(self.vars[n.k as usize].lo) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&x) {
            return v;
        }
        let m = mask(n.w);
        let r = match n.op {
            Op::Not => !self.eval(n.a, model, memo) & m,
            Op::Mod => self.eval(n.a, model, memo),
            Op::Ite => {
                if self.eval(n.a, model, memo) != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => {
                let wi = self.w(n.a);
                sext128(self.eval(n.a, model, memo), wi) as u128 & m
            }
            Op::Extract => (self.eval(n.a, model, memo) >> n.k) & m,
            Op::Concat => {
                let wl = self.w(n.b);
                (self.eval(n.a, model, memo) << wl) | self.eval(n.b, model, memo)
            }
            Op::FNan => {
                let v = self.eval(n.a, model, memo);
                (if self.w(n.a) == 64 { f64::from_bits(v as u64).is_nan() } else { f32::from_bits(v as u32).is_nan() }) as u128
            }
            Op::UiToFp => (self.eval(n.a, model, memo) as u64 as f64).to_bits() as u128,
            Op::SiToFp => {
                let wi = self.w(n.a);
                (sext128(self.eval(n.a, model, memo), wi) as i64 as f64).to_bits() as u128
            }
            Op::FInt => Self::integral(n.k as u8, n.w, self.eval(n.a, model, memo)),
            Op::FpCvt => Self::cvt(n.w, self.eval(n.a, model, memo)),
            Op::FSqrt => f64::from_bits(self.eval(n.a, model, memo) as u64).sqrt().to_bits() as u128,
            Op::FpToUi => (f64::from_bits(self.eval(n.a, model, memo) as u64) as u64) as u128 & m,
            Op::FpToSi => (f64::from_bits(self.eval(n.a, model, memo) as u64) as i64) as u128 & m,
            op => {
                let wa = self.w(n.a);
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                Self::fold(op, wa, a, b)
            }
        };
        memo.insert(x, r);
        r
    }

    pub fn vars_of(&self, x: X, seen: &mut FxSet<X>, out: &mut Vec<u32>) {
        let n = &self.n[x as usize];
        match n.op {
            Op::Const => return,
            Op::Var => {
                if seen.insert(x) {
                    out.push(n.k as u32)
                }
                return;
            }
            _ => {}
        }
        if !seen.insert(x) {
            return;
        }
        if n.a != 0 {
            self.vars_of(n.a, seen, out)
        }
        if n.b != 0 {
            self.vars_of(n.b, seen, out)
        }
        if n.c != 0 {
            self.vars_of(n.c, seen, out)
        }
    }

    pub fn show(&self, x: X) -> String {
        self.show_d(x, 12)
    }
    fn show_d(&self, x: X, d: u32) -> String {
        let n = self.node(x);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => self.vars[n.k as usize].name.clone(),
            Op::Extract => format!("{}[{}+:{}]", self.show_d(n.a, d - 1), n.k, n.w),
            _ => {
                let mut s = format!("({:?}:{}", n.op, n.w);
                for y in [n.a, n.b, n.c] {
                    if y != 0 {
                        s.push(' ');
                        s.push_str(&self.show_d(y, d - 1));
                    }
                }
                s.push(')');
                s
            }
        }
    }
}
