//! Reader for textual LLVM IR as emitted by rustc.  Files are indexed by symbol;
//! function bodies and global initialisers are parsed on demand.
use crate::expr::{mask, Op};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F16,
    F32,
    F64,
    F128,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Meta,
    Label,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::F128 => 16,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, p) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::F128 => 16,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => self.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(ts, p) => {
                let mut o = 0;
                for t in ts {
                    if !*p {
                        o = align_to(o, t.align());
                    }
                    o += t.size();
                }
                if !*p {
                    o = align_to(o, self.align());
                }
                o
            }
            Ty::Arr(n, t) => n * t.size(),
            _ => align_to(self.store_size(), self.align()),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, p) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !*p {
                        o = align_to(o, t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(ts, _) => &ts[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!("count"),
        }
    }
    /// width in bits for scalars
    pub fn bits(&self) -> u8 {
        match self {
            Ty::Int(w) => *w as u8,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::F16 => 16,
            Ty::F128 => 128,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 | Ty::F16 | Ty::F128)
    }
}
pub fn align_to(o: u64, a: u64) -> u64 {
    (o + a - 1) / a * a
}

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    W(Arc<u128>),
    E(u32),
    A(Arc<Vec<V>>),
}
impl V {
    pub fn from128(w: u8, v: u128) -> V {
        let v = v & mask(w);
        if w <= 64 {
            V::I(v as u64)
        } else {
            V::W(Arc::new(v))
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FPred {
    False,
    True,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK {
    ZExt,
    SExt,
    Trunc,
    Bit, // bitcast / ptrtoint / inttoptr
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    Nop,
    MemCpy,
    MemMove,
    MemSet,
    Assume,
    AddOv(bool),
    SubOv(bool),
    MulOv(bool),
    AddSat(bool),
    SubSat(bool),
    Fshl,
    Fshr,
    UMin,
    UMax,
    SMin,
    SMax,
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    Bitrev,
    Abs,
    UCmp,
    SCmp,
    Trap,
    TlsAddr,
    Expect,
    LoadRel,
    FpToUiSat,
    FpToSiSat,
    Sqrt,
    FAbs,
    FMin,
    FMax,
    Floor,
    Ceil,
    FTrunc,
    FRound,
    FRoundEven,
    CopySign,
    IsFpClass,
    PtrMask,
    FFma,
    Math(&'static str),
    VReduce(Op),
    Unknown,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32),
    Ptr(Opnd),
    Intr(Intr, Arc<str>),
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u8, d: u32, a: Opnd, b: Opnd, n: u32 }, // n>0: vector of n lanes
    ICmp { p: Pred, w: u8, d: u32, a: Opnd, b: Opnd, n: u32 },
    FCmp { p: FPred, w: u8, d: u32, a: Opnd, b: Opnd, n: u32 },
    FNeg { w: u8, d: u32, a: Opnd },
    Sel { d: u32, c: Opnd, a: Opnd, b: Opnd, ty: Ty, cvec: bool },
    Load { d: u32, ty: Arc<Ty>, w: u8, p: Opnd }, // w>0: scalar
    Store { ty: Arc<Ty>, w: u8, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, idx: Box<[(Opnd, u8, i64)]> },
    Cast { k: CastK, d: u32, a: Opnd, from: Arc<Ty>, to: Arc<Ty> },
    Call { d: Option<u32>, ret: Arc<Ty>, f: Callee, args: Box<[Opnd]>, aw: Box<[u8]> },
    Alloca { d: u32, size: u64 },
    ExtractV { d: u32, a: Opnd, path: Box<[u32]> },
    InsertV { d: u32, a: Opnd, v: Opnd, path: Box<[u32]>, ty: Arc<Ty> },
    ExtractE { d: u32, a: Opnd, i: Opnd },
    InsertE { d: u32, a: Opnd, v: Opnd, i: Opnd, ty: Arc<Ty> },
    Shuffle { d: u32, a: Opnd, b: Opnd, m: Box<[u32]>, n: u32 },
    Copy { d: u32, a: Opnd },
    Rmw { op: RmwOp, w: u8, d: u32, p: Opnd, v: Opnd },
    CmpXchg { w: u8, d: u32, p: Opnd, e: Opnd, n: Opnd },
    Nop,
    Ret(Option<Opnd>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u8, v: Opnd, def: u32, cases: Box<[(u128, u32)]> },
    Unreachable,
    Unsupported(Arc<str>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
    Other,
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub sym: u32,
    pub name: &'static str,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SymKind {
    Func,
    Global,
    Decl,
}
pub struct GlobalInit {
    pub bytes: Vec<u8>,
    pub constant: bool,
}
pub struct Sym {
    pub name: &'static str,
    pub file: u32,
    pub kind: SymKind,
    pub text: &'static str,
    pub func: OnceLock<Arc<Func>>,
    pub glob: OnceLock<Arc<GlobalInit>>,
    /// rustc's `; path::to::item` comment, if any
    pub pretty: &'static str,
}

pub struct Program {
    pub syms: Vec<Sym>,
    pub global: HashMap<&'static str, u32>,
    pub local: Vec<HashMap<&'static str, u32>>,
    pub types: Vec<HashMap<&'static str, Ty>>,
    pub files: Vec<String>,
}

pub const G_TAG: u64 = 1 << 60;
pub fn sym_addr(i: u32) -> u64 {
    G_TAG | ((i as u64) << 32)
}

impl Program {
    pub fn load(paths: &[String]) -> Program {
        let mut texts: Vec<Option<&'static str>> = vec![None; paths.len()];
        std::thread::scope(|s| {
            let hs: Vec<_> = paths
                .iter()
                .map(|p| {
                    s.spawn(move || {
                        let b = std::fs::read(p).unwrap_or_else(|e| panic!("read {}: {}", p, e));
                        let st = match String::from_utf8(b) {
                            Ok(s) => s,
                            Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
                        };
                        &*Box::leak(st.into_boxed_str())
                    })
                })
                .collect();
            for (i, h) in hs.into_iter().enumerate() {
                texts[i] = Some(h.join().unwrap());
            }
        });
        let mut per: Vec<Option<(Vec<Sym>, Vec<bool>, HashMap<&'static str, Ty>)>> = (0..paths.len()).map(|_| None).collect();
        std::thread::scope(|s| {
            let hs: Vec<_> = texts.iter().enumerate().map(|(i, t)| {
                let t = t.unwrap();
                s.spawn(move || index_file(i as u32, t))
            }).collect();
            for (i, h) in hs.into_iter().enumerate() {
                per[i] = Some(h.join().unwrap());
            }
        });
        let mut p = Program { syms: vec![], global: HashMap::new(), local: vec![], types: vec![], files: paths.to_vec() };
        for x in per {
            let (syms, is_local, types) = x.unwrap();
            let mut loc = HashMap::new();
            for (s, l) in syms.into_iter().zip(is_local) {
                if s.kind == SymKind::Decl {
                    continue;
                }
                let id = p.syms.len() as u32;
                if l {
                    loc.insert(s.name, id);
                } else {
                    p.global.entry(s.name).or_insert(id);
                }
                p.syms.push(s);
            }
            p.local.push(loc);
            p.types.push(types);
        }
        // externs: give every referenced-but-undefined symbol an id, too
        for (i, t) in texts.iter().enumerate() {
            let _ = i;
            for line in t.unwrap().lines() {
                let name = if line.starts_with("declare ") {
                    match sym_name(line) {
                        Some(n) => n,
                        None => continue,
                    }
                } else if line.starts_with('@') && line.contains(" external ") {
                    match sym_name(line) {
                        Some(n) => n,
                        None => continue,
                    }
                } else {
                    continue;
                };
                if name.starts_with("llvm.") {
                    continue;
                }
                if !p.global.contains_key(name) {
                    let id = p.syms.len() as u32;
                    p.global.insert(name, id);
                    p.syms.push(Sym {
                        name,
                        file: u32::MAX,
                        kind: SymKind::Decl,
                        text: "",
                        func: OnceLock::new(),
                        glob: OnceLock::new(),
                        pretty: "",
                    });
                }
            }
        }
        p
    }

    pub fn lookup(&self, file: u32, name: &str) -> Option<u32> {
        if let Some(&i) = self.local[file as usize].get(name) {
            return Some(i);
        }
        self.global.get(name).copied()
    }

    pub fn func(&self, i: u32) -> Arc<Func> {
        let s = &self.syms[i as usize];
        s.func.get_or_init(|| Arc::new(Parser::new(self, s.file, s.text).function(i))).clone()
    }
    pub fn glob(&self, i: u32) -> Arc<GlobalInit> {
        let s = &self.syms[i as usize];
        s.glob
            .get_or_init(|| {
                if s.kind != SymKind::Global {
                    return Arc::new(GlobalInit { bytes: vec![], constant: true });
                }
                Arc::new(Parser::new(self, s.file, s.text).global())
            })
            .clone()
    }
}

fn sym_name(line: &'static str) -> Option<&'static str> {
    let p = line.find('@')?;
    let r = &line[p + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        Some(&q[..e])
    } else {
        let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len());
        Some(&r[..e])
    }
}

fn index_file(file: u32, text: &'static str) -> (Vec<Sym>, Vec<bool>, HashMap<&'static str, Ty>) {
    let mut syms = vec![];
    let mut loc = vec![];
    let types = HashMap::new();
    let b = text.as_bytes();
    let mut pos = 0;
    let mut prev: &'static str = "";
    while pos < b.len() {
        let eol = match memchr(b'\n', &b[pos..]) {
            Some(e) => pos + e,
            None => b.len(),
        };
        let line = &text[pos..eol];
        if line.starts_with("define ") {
            // body ends at "\n}\n"
            let rest = &text[pos..];
            let end = rest.find("\n}").unwrap();
            let body = &rest[..end + 2];
            let name = sym_name(line).unwrap();
            let head = &line[..line.find('@').unwrap()];
            let l = head.contains(" internal ") || head.contains(" private ");
            syms.push(Sym {
                name,
                file,
                kind: SymKind::Func,
                text: body,
                func: OnceLock::new(),
                glob: OnceLock::new(),
                pretty: {
                    let mut q = prev;
                    if q.starts_with("; Function Attrs") {
                        q = "";
                    }
                    q.strip_prefix("; ").unwrap_or("")
                },
            });
            loc.push(l);
            pos += end + 3;
            prev = "";
            continue;
        }
        if line.starts_with('@') && !line.starts_with("@llvm.") {
            if let Some(name) = sym_name(line) {
                let r = &line[line.find('=').unwrap_or(0)..];
                let head = &r[..r.len().min(120)];
                if !head.contains(" external ") {
                    let l = head.contains(" internal ") || head.contains(" private ");
                    let kind = if head.starts_with("= alias") || head.contains(" alias ") { SymKind::Func } else { SymKind::Global };
                    syms.push(Sym { name, file, kind, text: line, func: OnceLock::new(), glob: OnceLock::new(), pretty: "" });
                    loc.push(l);
                }
            }
        }
        if line.starts_with("; ") && !line.starts_with("; Function Attrs") {
            prev = line;
        } else if !line.starts_with("; Function Attrs") {
            prev = "";
        }
        pos = eol + 1;
    }
    (syms, loc, types)
}

fn memchr(c: u8, b: &[u8]) -> Option<usize> {
    b.iter().position(|&x| x == c)
}

pub struct Parser<'a> {
    p: &'a Program,
    file: u32,
    t: &'static str,
    b: &'static [u8],
    i: usize,
    regs: HashMap<&'static str, u32>,
    nregs: u32,
    blocks: HashMap<&'static str, u32>,
}

type R<T> = Result<T, String>;

impl<'a> Parser<'a> {
    pub fn new(p: &'a Program, file: u32, t: &'static str) -> Self {
        Parser { p, file, t, b: t.as_bytes(), i: 0, regs: HashMap::new(), nregs: 0, blocks: HashMap::new() }
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn pk(&mut self) -> u8 {
        self.ws();
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.i + 80).min(self.t.len());
        let mut e2 = e;
        while !self.t.is_char_boundary(e2) {
            e2 -= 1;
        }
        let mut s = self.i.min(e2);
        while !self.t.is_char_boundary(s) {
            s -= 1;
        }
        Err(format!("{} at `{}`", m, &self.t[s..e2]))
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.pk() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected `{}`", c as char))
        }
    }
    fn is_id(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let s = self.i;
        while self.i < self.b.len() && Self::is_id(self.b[self.i]) {
            self.i += 1;
        }
        &self.t[s..self.i]
    }
    fn peek_word(&mut self) -> &'static str {
        let s = {
            self.ws();
            self.i
        };
        let w = self.word();
        self.i = s;
        w
    }
    /// name after % or @
    fn name(&mut self) -> &'static str {
        if self.b[self.i] == b'"' {
            self.i += 1;
            let s = self.i;
            while self.b[self.i] != b'"' {
                self.i += 1;
            }
            let r = &self.t[s..self.i];
            self.i += 1;
            r
        } else {
            let s = self.i;
            while self.i < self.b.len() && Self::is_id(self.b[self.i]) {
                self.i += 1;
            }
            &self.t[s..self.i]
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.b.len() {
            match self.b[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.b[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }

    fn starts_type(&mut self) -> bool {
        match self.pk() {
            b'{' | b'[' => return true,
            b'<' => return true,
            b'%' => return false,
            _ => {}
        }
        let w = self.peek_word();
        matches!(w, "void" | "ptr" | "double" | "float" | "half" | "fp128" | "label" | "metadata" | "token") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
    }
    fn ty(&mut self) -> R<Ty> {
        match self.pk() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(b'}') {
                    v.push(self.ty()?);
                    self.eat(b',');
                }
                Ok(Ty::Struct(v, false))
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "array len".to_string())?;
                if self.word() != "x" {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.exp(b']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            b'<' => {
                self.i += 1;
                if self.pk() == b'{' {
                    self.i += 1;
                    let mut v = vec![];
                    while !self.eat(b'}') {
                        v.push(self.ty()?);
                        self.eat(b',');
                    }
                    self.exp(b'>')?;
                    return Ok(Ty::Struct(v, true));
                }
                let n: u32 = self.word().parse().map_err(|_| "vec len".to_string())?;
                if self.word() != "x" {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.exp(b'>')?;
                Ok(Ty::Vec(n, Box::new(t)))
            }
            _ => {
                let w = self.word();
                Ok(match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.ws();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "half" => Ty::F16,
                    "fp128" => Ty::F128,
                    "label" => Ty::Label,
                    "metadata" | "token" => Ty::Meta,
                    _ if w.starts_with('i') => match w[1..].parse::<u16>() {
                        Ok(n) if n <= 128 => Ty::Int(n),
                        _ => return self.err("int type"),
                    },
                    _ => return self.err(&format!("type `{}`", w)),
                })
            }
        }
    }

    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            match self.pk() {
                b'#' => {
                    self.i += 1;
                    self.word();
                }
                b'"' => {
                    // string attribute
                    self.i += 1;
                    while self.b[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.eat(b'=') {
                        self.eat(b'"');
                        while self.b[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                }
                c if c.is_ascii_lowercase() => {
                    if self.starts_type() {
                        return;
                    }
                    let s = self.i;
                    let w = self.word();
                    const VALS: &[&str] = &[
                        "null", "true", "false", "undef", "poison", "zeroinitializer", "none", "inttoptr", "ptrtoint", "ptrtoaddr", "getelementptr", "splat", "sub", "add", "mul", "xor",
                        "trunc", "zext", "bitcast", "addrspacecast", "c", "asm", "cc",
                    ];
                    if VALS.contains(&w) || w.starts_with("f0x") {
                        self.i = s;
                        return;
                    }
                    if w == "align" {
                        if self.pk() == b'(' {
                            self.skip_parens();
                        } else {
                            self.word();
                        }
                    } else if self.i < self.b.len() && self.b[self.i] == b'(' {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }

    fn reg(&mut self, n: &'static str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }

    fn zero(t: &Ty) -> V {
        match t {
            Ty::Struct(ts, _) => V::A(Arc::new(ts.iter().map(Self::zero).collect())),
            Ty::Arr(n, t) => V::A(Arc::new(vec![Self::zero(t); *n as usize])),
            Ty::Vec(n, t) => V::A(Arc::new(vec![Self::zero(t); *n as usize])),
            t if t.scalar() => V::from128(t.bits(), 0),
            _ => V::I(0),
        }
    }

    /// value of a given type
    fn val(&mut self, t: &Ty) -> R<Opnd> {
        if self.pk() == b'%' {
            self.i += 1;
            let n = self.name();
            return Ok(Opnd::R(self.reg(n)));
        }
        Ok(Opnd::K(self.cst(t)?))
    }

    fn cst(&mut self, t: &Ty) -> R<V> {
        let c = self.pk();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                match self.p.lookup(self.file, n) {
                    Some(i) => Ok(V::I(sym_addr(i))),
                    None => Err(format!("unknown symbol {}", n)),
                }
            }
            b'{' | b'[' | b'<' => {
                let packed = c == b'<';
                self.i += 1;
                let inner_struct = packed && self.pk() == b'{';
                if inner_struct {
                    self.i += 1;
                }
                let close = if inner_struct {
                    b'}'
                } else {
                    match c {
                        b'{' => b'}',
                        b'[' => b']',
                        _ => b'>',
                    }
                };
                let mut v = vec![];
                while !self.eat(close) {
                    let et = self.ty()?;
                    v.push(self.cst(&et)?);
                    self.eat(b',');
                }
                if inner_struct {
                    self.exp(b'>')?;
                }
                Ok(V::A(Arc::new(v)))
            }
            b'c' if self.b.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                loop {
                    let c = self.b[self.i];
                    self.i += 1;
                    match c {
                        b'"' => break,
                        b'\\' if self.b[self.i] == b'\\' => {
                            v.push(V::I(b'\\' as u64));
                            self.i += 1;
                        }
                        b'\\' => {
                            let h = &self.t[self.i..self.i + 2];
                            v.push(V::I(u64::from_str_radix(h, 16).unwrap()));
                            self.i += 2;
                        }
                        c => v.push(V::I(c as u64)),
                    }
                }
                Ok(V::A(Arc::new(v)))
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let s = self.i;
                self.i += 1;
                while self.i < self.b.len() && (Self::is_id(self.b[self.i]) || self.b[self.i] == b'+') {
                    self.i += 1;
                }
                self.num(&self.t[s..self.i].to_string(), t)
            }
            _ => {
                let w = self.word();
                match w {
                    "null" | "zeroinitializer" | "undef" | "poison" | "none" => Ok(Self::zero(t)),
                    "true" => Ok(V::I(1)),
                    "false" => Ok(V::I(0)),
                    "splat" => {
                        self.exp(b'(')?;
                        let et = self.ty()?;
                        let v = self.cst(&et)?;
                        self.exp(b')')?;
                        Ok(V::A(Arc::new(vec![v; t.count()])))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        self.exp(b'(')?;
                        let ft = self.ty()?;
                        let v = self.cst(&ft)?;
                        if self.word() != "to" {
                            return self.err("to");
                        }
                        let tt = self.ty()?;
                        self.exp(b')')?;
                        match v {
                            V::I(x) => Ok(V::from128(tt.bits(), x as u128)),
                            v => Ok(v),
                        }
                    }
                    "sub" | "add" | "mul" | "xor" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") {
                            self.word();
                        }
                        self.exp(b'(')?;
                        let ft = self.ty()?;
                        let a = self.cst(&ft)?;
                        self.exp(b',')?;
                        let ft2 = self.ty()?;
                        let b = self.cst(&ft2)?;
                        self.exp(b')')?;
                        match (a, b) {
                            (V::I(a), V::I(b)) => Ok(V::from128(
                                ft.bits(),
                                match w {
                                    "sub" => a.wrapping_sub(b),
                                    "add" => a.wrapping_add(b),
                                    "mul" => a.wrapping_mul(b),
                                    _ => a ^ b,
                                } as u128,
                            )),
                            _ => self.err("constexpr"),
                        }
                    }
                    "getelementptr" => {
                        while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                            let w = self.word();
                            if w == "inrange" {
                                self.ws();
                                self.skip_parens();
                            }
                        }
                        self.exp(b'(')?;
                        let et = self.ty()?;
                        self.exp(b',')?;
                        let bt = self.ty()?;
                        let base = match self.cst(&bt)? {
                            V::I(x) => x,
                            _ => return self.err("gep base"),
                        };
                        let mut off = 0i64;
                        let mut cur = et;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty()?;
                            let iv = match self.cst(&it)? {
                                V::I(x) => crate::expr::sext64(x, it.bits()),
                                _ => return self.err("gep idx"),
                            };
                            if first {
                                off += iv * cur.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_off(iv as usize) as i64;
                                cur = cur.elem(iv as usize).clone();
                            }
                        }
                        self.exp(b')')?;
                        Ok(V::I(base.wrapping_add(off as u64)))
                    }
                    "f0x" => self.err("float"),
                    _ if w.starts_with("f0x") => self.num(w, t),
                    _ => self.err(&format!("constant `{}`", w)),
                }
            }
        }
    }

    fn num(&self, s: &str, t: &Ty) -> R<V> {
        let bad = || format!("number `{}` of {:?}", s, t);
        match t {
            Ty::F64 | Ty::F32 | Ty::F16 | Ty::F128 => {
                if let Some(h) = s.strip_prefix("f0x") {
                    return Ok(V::from128(t.bits(), u128::from_str_radix(h, 16).map_err(|_| bad())?));
                }
                let d: f64 = if let Some(h) = s.strip_prefix("0x") {
                    let h2 = h.trim_start_matches(|c| c == 'H' || c == 'L' || c == 'K');
                    if h2.len() != h.len() {
                        return Ok(V::from128(t.bits(), u128::from_str_radix(h2, 16).map_err(|_| bad())?));
                    }
                    f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| bad())?)
                } else {
                    match s {
                        "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "+qnan" | "+nan" => f64::NAN,
                        "-qnan" | "-nan" => -f64::NAN,
                        _ => s.parse().map_err(|_| bad())?,
                    }
                };
                Ok(match t {
                    Ty::F64 => V::I(d.to_bits()),
                    Ty::F32 => V::I((d as f32).to_bits() as u64),
                    _ => V::I(0),
                })
            }
            t if t.scalar() => {
                let v: u128 = if s.starts_with('-') { s.parse::<i128>().map_err(|_| bad())? as u128 } else { s.trim_start_matches('+').parse::<u128>().map_err(|_| bad())? };
                Ok(V::from128(t.bits(), v))
            }
            _ => Err(bad()),
        }
    }

    fn emit_const(v: &V, t: &Ty, out: &mut [u8], o: usize) {
        match (v, t) {
            (V::A(vs), Ty::Vec(_, et)) => {
                let s = et.store_size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    Self::emit_const(x, et, out, o + i * s);
                }
            }
            (V::A(vs), t) => {
                for (i, x) in vs.iter().enumerate() {
                    Self::emit_const(x, t.elem(i), out, o + t.field_off(i) as usize);
                }
            }
            (V::I(x), t) => {
                let n = t.store_size() as usize;
                let b = x.to_le_bytes();
                out[o..o + n].copy_from_slice(&b[..n]);
            }
            (V::W(x), t) => {
                let n = t.store_size() as usize;
                let b = x.to_le_bytes();
                out[o..o + n].copy_from_slice(&b[..n]);
            }
            _ => {}
        }
    }

    pub fn global(mut self) -> GlobalInit {
        let r: R<GlobalInit> = (|| {
            let eq = self.t.find('=').unwrap();
            self.i = eq + 1;
            let constant;
            loop {
                if self.pk() == b'"' {
                    self.attrs();
                    continue;
                }
                let w = self.word();
                match w {
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => {
                        constant = false;
                        break;
                    }
                    "" => return self.err("global"),
                    _ => {
                        if self.i < self.b.len() && self.b[self.i] == b'(' {
                            self.skip_parens();
                        }
                    }
                }
            }
            let t = self.ty()?;
            let v = self.cst(&t)?;
            let mut bytes = vec![0u8; t.size() as usize];
            Self::emit_const(&v, &t, &mut bytes, 0);
            Ok(GlobalInit { bytes, constant })
        })();
        match r {
            Ok(g) => g,
            Err(e) => panic!("irsym: cannot parse global: {}\n{}", e, &self.t[..self.t.len().min(300)]),
        }
    }

    fn blk(&mut self, n: &'static str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(k)
    }

    pub fn function(mut self, sym: u32) -> Func {
        // header
        let hdr_end = self.t.find("{\n").map(|_| ()).is_some();
        let _ = hdr_end;
        let at = self.t.find('@').unwrap();
        self.i = at + 1;
        let name = self.name();
        let mut nparams = 0;
        let r: R<()> = (|| {
            self.exp(b'(')?;
            while !self.eat(b')') {
                if self.pk() == b'.' {
                    self.i += 3;
                    continue;
                }
                let _t = self.ty()?;
                self.attrs();
                if self.pk() == b'%' {
                    self.i += 1;
                    let n = self.name();
                    let r = self.reg(n);
                    assert_eq!(r, nparams);
                } else {
                    self.nregs += 1;
                }
                nparams += 1;
                self.eat(b',');
            }
            Ok(())
        })();
        if let Err(e) = r {
            panic!("irsym: function header: {}", e);
        }
        // body start: end of the define line
        let eol = self.t[self.i..].find('\n').unwrap() + self.i;
        let body = &self.t[eol + 1..];
        // collect block labels in order
        let mut out: Vec<Block> = vec![];
        let mut lines: Vec<&'static str> = vec![];
        {
            let mut it = body.split('\n').peekable();
            while let Some(l) = it.next() {
                if l == "}" {
                    break;
                }
                if l.trim_start().starts_with("switch ") && l.ends_with('[') {
                    // join up to ']'
                    let start = l.as_ptr() as usize - body.as_ptr() as usize;
                    let mut end = start + l.len();
                    for l2 in it.by_ref() {
                        end = l2.as_ptr() as usize - body.as_ptr() as usize + l2.len();
                        if l2.trim_start().starts_with(']') {
                            break;
                        }
                    }
                    lines.push(&body[start..end]);
                } else if !l.trim().is_empty() {
                    lines.push(l);
                }
            }
        }
        let mut first = true;
        for l in &lines {
            if !l.starts_with(' ') && !l.starts_with(';') {
                let lab = Self::label(l);
                self.blk(lab);
                first = false;
            } else if first {
                self.blk("<entry>");
                first = false;
            }
        }
        let nb = self.blocks.len();
        let mut cur: Option<usize> = None;
        for l in &lines {
            if l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                let lab = Self::label(l);
                let k = self.blk(lab) as usize;
                assert_eq!(k, out.len(), "{} {}", name, lab);
                out.push(Block { name: lab.to_string(), phis: vec![], insts: vec![] });
                cur = Some(k);
                continue;
            }
            if cur.is_none() {
                out.push(Block { name: "<entry>".into(), phis: vec![], insts: vec![] });
                cur = Some(0);
            }
            self.b = l.as_bytes();
            self.t = l;
            self.i = 0;
            let bi = cur.unwrap();
            match self.inst(&mut out[bi]) {
                Ok(()) => {}
                Err(e) => {
                    let msg = format!("{} in `{}`", e, l.trim());
                    // keep the result register defined
                    out[bi].insts.push(Inst::Unsupported(msg.into()));
                }
            }
        }
        assert_eq!(self.blocks.len(), nb, "undefined label in {}", name);
        Func { sym, name, nparams, nregs: self.nregs, blocks: out }
    }
    fn label(l: &'static str) -> &'static str {
        if let Some(q) = l.strip_prefix('"') {
            &q[..q.find('"').unwrap()]
        } else {
            &l[..l.find(':').unwrap()]
        }
    }
    fn lab(&mut self) -> R<u32> {
        if self.word() != "label" {
            return self.err("label");
        }
        self.exp(b'%')?;
        let n = self.name();
        Ok(self.blk(n))
    }

    fn inst(&mut self, blk: &mut Block) -> R<()> {
        let mut d = None;
        if self.pk() == b'%' {
            self.i += 1;
            let n = self.name();
            self.exp(b'=')?;
            d = Some(self.reg(n));
        }
        let mut op = self.word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = self.word();
        }
        let dd = d.unwrap_or(u32::MAX);
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" => {
                while matches!(self.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    self.word();
                }
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "urem" => Op::URem,
                    "sdiv" => Op::SDiv,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "fadd" => Op::FAdd,
                    "fsub" => Op::FSub,
                    "fmul" => Op::FMul,
                    _ => Op::FDiv,
                };
                let (w, n) = match &t {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    t => (t.bits(), 0),
                };
                if op.starts_with('f') && w != 64 && w != 32 {
                    return self.err("fp width");
                }
                Inst::Bin { op: o, w, d: dd, a, b, n }
            }
            "icmp" => {
                while matches!(self.peek_word(), "samesign") {
                    self.word();
                }
                let p = match self.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return self.err("icmp pred"),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                let (w, n) = match &t {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    t => (t.bits(), 0),
                };
                Inst::ICmp { p, w, d: dd, a, b, n }
            }
            "fcmp" => {
                while matches!(self.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    self.word();
                }
                let p = match self.word() {
                    "false" => FPred::False,
                    "true" => FPred::True,
                    "oeq" => FPred::Oeq,
                    "ogt" => FPred::Ogt,
                    "oge" => FPred::Oge,
                    "olt" => FPred::Olt,
                    "ole" => FPred::Ole,
                    "one" => FPred::One,
                    "ord" => FPred::Ord,
                    "ueq" => FPred::Ueq,
                    "ugt" => FPred::Ugt,
                    "uge" => FPred::Uge,
                    "ult" => FPred::Ult,
                    "ule" => FPred::Ule,
                    "une" => FPred::Une,
                    "uno" => FPred::Uno,
                    _ => return self.err("fcmp pred"),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                let (w, n) = match &t {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    t => (t.bits(), 0),
                };
                if w != 64 && w != 32 {
                    return self.err("fp width");
                }
                Inst::FCmp { p, w, d: dd, a, b, n }
            }
            "frem" => {
                self.attrs();
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let b = self.val(&t)?;
                let w = t.bits();
                Inst::Call { d: Some(dd), ret: Arc::new(t), f: Callee::Intr(Intr::Math("fmod"), "frem".into()), args: Box::new([a, b]), aw: Box::new([w, w]) }
            }
            "fneg" => {
                self.attrs();
                let t = self.ty()?;
                let a = self.val(&t)?;
                Inst::FNeg { w: t.bits(), d: dd, a }
            }
            "select" => {
                self.attrs();
                let ct = self.ty()?;
                let c = self.val(&ct)?;
                self.exp(b',')?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                Inst::Sel { d: dd, c, a, b, ty: t, cvec: matches!(ct, Ty::Vec(..)) }
            }
            "freeze" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                Inst::Copy { d: dd, a }
            }
            "load" => {
                while matches!(self.peek_word(), "atomic" | "volatile") {
                    self.word();
                }
                let t = self.ty()?;
                self.exp(b',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                let w = if t.scalar() { t.bits() } else { 0 };
                Inst::Load { d: dd, ty: Arc::new(t), w, p }
            }
            "store" => {
                while matches!(self.peek_word(), "atomic" | "volatile") {
                    self.word();
                }
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp(b',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                let w = if t.scalar() { t.bits() } else { 0 };
                Inst::Store { ty: Arc::new(t), w, v, p }
            }
            "getelementptr" => {
                while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw") {
                    self.word();
                }
                let et = self.ty()?;
                self.exp(b',')?;
                let bt = self.ty()?;
                let base = self.val(&bt)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while self.pk() == b',' {
                    self.i += 1;
                    if self.pk() == b'!' {
                        break;
                    }
                    let it = self.ty()?;
                    let iv = self.val(&it)?;
                    if first {
                        let sc = cur.size() as i64;
                        match &iv {
                            Opnd::K(V::I(x)) => off = off.wrapping_add(crate::expr::sext64(*x, it.bits()).wrapping_mul(sc)),
                            _ => idx.push((iv, it.bits(), sc)),
                        }
                        first = false;
                    } else {
                        match (&cur, &iv) {
                            (Ty::Struct(..), Opnd::K(V::I(x))) => {
                                off += cur.field_off(*x as usize) as i64;
                                cur = cur.elem(*x as usize).clone();
                            }
                            (Ty::Arr(_, e), _) => {
                                let sc = e.size() as i64;
                                match &iv {
                                    Opnd::K(V::I(x)) => off += crate::expr::sext64(*x, it.bits()) * sc,
                                    _ => idx.push((iv, it.bits(), sc)),
                                }
                                let e2 = (**e).clone();
                                cur = e2;
                            }
                            _ => return self.err("gep"),
                        }
                    }
                }
                Inst::Gep { d: dd, base, off, idx: idx.into() }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(self.peek_word(), "nneg" | "nuw" | "nsw" | "nnan" | "ninf" | "nsz" | "fast") {
                    self.word();
                }
                let t = self.ty()?;
                let a = self.val(&t)?;
                if self.word() != "to" {
                    return self.err("to");
                }
                let to = self.ty()?;
                let k = match op {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    _ => CastK::Bit,
                };
                Inst::Cast { k, d: dd, a, from: Arc::new(t), to: Arc::new(to) }
            }
            "phi" => {
                self.attrs();
                let t = self.ty()?;
                let mut inc = vec![];
                while self.pk() == b'[' {
                    self.i += 1;
                    let v = self.val(&t)?;
                    self.exp(b',')?;
                    self.exp(b'%')?;
                    let n = self.name();
                    let b = self.blk(n);
                    self.exp(b']')?;
                    inc.push((b, v));
                    if !self.eat(b',') {
                        break;
                    }
                }
                blk.phis.push((dd, inc));
                return Ok(());
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1u64;
                if self.eat(b',') {
                    if self.starts_type() {
                        let ct = self.ty()?;
                        match self.val(&ct)? {
                            Opnd::K(V::I(x)) => n = x,
                            _ => return self.err("dynamic alloca"),
                        }
                    }
                }
                Inst::Alloca { d: dd, size: t.size() * n }
            }
            "extractvalue" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                let mut path = vec![];
                while self.eat(b',') {
                    if self.pk() == b'!' {
                        break;
                    }
                    path.push(self.word().parse::<u32>().map_err(|_| "idx".to_string())?);
                }
                Inst::ExtractV { d: dd, a, path: path.into() }
            }
            "insertvalue" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let vt = self.ty()?;
                let v = self.val(&vt)?;
                let mut path = vec![];
                while self.eat(b',') {
                    if self.pk() == b'!' {
                        break;
                    }
                    path.push(self.word().parse::<u32>().map_err(|_| "idx".to_string())?);
                }
                Inst::InsertV { d: dd, a, v, path: path.into(), ty: Arc::new(t) }
            }
            "extractelement" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let it = self.ty()?;
                let i = self.val(&it)?;
                Inst::ExtractE { d: dd, a, i }
            }
            "insertelement" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let vt = self.ty()?;
                let v = self.val(&vt)?;
                self.exp(b',')?;
                let it = self.ty()?;
                let i = self.val(&it)?;
                Inst::InsertE { d: dd, a, v, i, ty: Arc::new(t) }
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                self.exp(b',')?;
                let mt = self.ty()?;
                let m = match self.cst(&mt)? {
                    V::A(v) => v.iter().map(|x| if let V::I(k) = x { *k as u32 } else { 0 }).collect::<Vec<_>>(),
                    _ => return self.err("mask"),
                };
                Inst::Shuffle { d: dd, a, b, m: m.into(), n: t.count() as u32 }
            }
            "atomicrmw" => {
                while matches!(self.peek_word(), "volatile") {
                    self.word();
                }
                let o = match self.word() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    _ => RmwOp::Other,
                };
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                self.exp(b',')?;
                let t = self.ty()?;
                let v = self.val(&t)?;
                Inst::Rmw { op: o, w: t.bits(), d: dd, p, v }
            }
            "cmpxchg" => {
                while matches!(self.peek_word(), "volatile" | "weak") {
                    self.word();
                }
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                self.exp(b',')?;
                let t = self.ty()?;
                let e = self.val(&t)?;
                self.exp(b',')?;
                let t2 = self.ty()?;
                let n = self.val(&t2)?;
                Inst::CmpXchg { w: t.bits(), d: dd, p, e, n }
            }
            "fence" => Inst::Nop,
            "call" => {
                self.attrs();
                if self.peek_word() == "cc" {
                    self.word();
                    self.word();
                    self.attrs();
                }
                let rt = self.ty()?;
                if self.pk() == b'(' {
                    self.skip_parens();
                }
                let mut intr = None;
                let f = match self.pk() {
                    b'@' => {
                        self.i += 1;
                        let n = self.name();
                        if n.starts_with("llvm.") {
                            intr = Some(n);
                            Callee::Intr(intrinsic(n), n.into())
                        } else {
                            match self.p.lookup(self.file, n) {
                                Some(i) => Callee::Sym(i),
                                None => return Err(format!("unknown callee {}", n)),
                            }
                        }
                    }
                    b'%' => {
                        self.i += 1;
                        let n = self.name();
                        Callee::Ptr(Opnd::R(self.reg(n)))
                    }
                    _ => {
                        let w = self.peek_word();
                        if w == "asm" {
                            // inline assembly: only the empty barrier (black_box) is understood
                            self.word();
                            while matches!(self.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") {
                                self.word();
                            }
                            if self.t[self.i..].trim_start().starts_with("\"\"") {
                                blk.insts.push(Inst::Nop);
                                return Ok(());
                            }
                            return self.err("inline asm");
                        }
                        Callee::Ptr(self.val(&Ty::Ptr)?)
                    }
                };
                self.exp(b'(')?;
                let mut args = vec![];
                let mut aw = vec![];
                while !self.eat(b')') {
                    let t = self.ty()?;
                    self.attrs();
                    if t == Ty::Meta {
                        // metadata argument: skip to , or ) at depth 0
                        let mut dep = 0;
                        loop {
                            let c = self.pk();
                            if c == b'"' {
                                self.i += 1;
                                while self.b[self.i] != b'"' {
                                    self.i += 1;
                                }
                            }
                            if dep == 0 && (c == b',' || c == b')') {
                                break;
                            }
                            if c == b'(' {
                                dep += 1
                            }
                            if c == b')' {
                                dep -= 1
                            }
                            self.i += 1;
                        }
                    } else {
                        let v = self.val(&t)?;
                        args.push(v);
                        aw.push(if t.scalar() { t.bits() } else { 0 });
                    }
                    self.eat(b',');
                }
                if let (Some(n), Callee::Intr(Intr::Nop, _)) = (intr, &f) {
                    let _ = n;
                    Inst::Nop
                } else {
                    Inst::Call { d, ret: Arc::new(rt), f, args: args.into(), aw: aw.into() }
                }
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.val(&t)?))
                }
            }
            "br" => {
                if self.peek_word() == "label" {
                    Inst::Br(self.lab()?)
                } else {
                    let t = self.ty()?;
                    let c = self.val(&t)?;
                    self.exp(b',')?;
                    let a = self.lab()?;
                    self.exp(b',')?;
                    let b = self.lab()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp(b',')?;
                let def = self.lab()?;
                self.exp(b'[')?;
                let mut cases = vec![];
                while !self.eat(b']') {
                    let ct = self.ty()?;
                    let k = match self.cst(&ct)? {
                        V::I(k) => k as u128,
                        V::W(k) => *k,
                        _ => return self.err("switch const"),
                    };
                    self.exp(b',')?;
                    let l = self.lab()?;
                    cases.push((k, l));
                }
                Inst::Switch { w: t.bits(), v, def, cases: cases.into() }
            }
            "unreachable" => Inst::Unreachable,
            _ => return self.err(&format!("instruction `{}`", op)),
        };
        blk.insts.push(ins);
        Ok(())
    }
}

fn intrinsic(n: &str) -> Intr {
    let n = &n[5..];
    let pre = |p: &str| n.starts_with(p);
    if pre("lifetime.") || pre("experimental.noalias") || pre("dbg.") || pre("invariant.") || pre("prefetch") || pre("pseudoprobe") {
        return Intr::Nop;
    }
    if pre("memcpy.") {
        return Intr::MemCpy;
    }
    if pre("memmove.") {
        return Intr::MemMove;
    }
    if pre("memset.") {
        return Intr::MemSet;
    }
    if pre("assume") {
        return Intr::Assume;
    }
    if pre("uadd.with.overflow") {
        return Intr::AddOv(false);
    }
    if pre("sadd.with.overflow") {
        return Intr::AddOv(true);
    }
    if pre("usub.with.overflow") {
        return Intr::SubOv(false);
    }
    if pre("ssub.with.overflow") {
        return Intr::SubOv(true);
    }
    if pre("umul.with.overflow") {
        return Intr::MulOv(false);
    }
    if pre("smul.with.overflow") {
        return Intr::MulOv(true);
    }
    if pre("uadd.sat") {
        return Intr::AddSat(false);
    }
    if pre("sadd.sat") {
        return Intr::AddSat(true);
    }
    if pre("usub.sat") {
        return Intr::SubSat(false);
    }
    if pre("ssub.sat") {
        return Intr::SubSat(true);
    }
    if pre("fshl.") {
        return Intr::Fshl;
    }
    if pre("fshr.") {
        return Intr::Fshr;
    }
    if pre("umin.") {
        return Intr::UMin;
    }
    if pre("umax.") {
        return Intr::UMax;
    }
    if pre("smin.") {
        return Intr::SMin;
    }
    if pre("smax.") {
        return Intr::SMax;
    }
    if pre("ctpop.") {
        return Intr::Ctpop;
    }
    if pre("cttz.") {
        return Intr::Cttz;
    }
    if pre("ctlz.") {
        return Intr::Ctlz;
    }
    if pre("bswap.") {
        return Intr::Bswap;
    }
    if pre("bitreverse.") {
        return Intr::Bitrev;
    }
    if pre("abs.") {
        return Intr::Abs;
    }
    if pre("ucmp.") {
        return Intr::UCmp;
    }
    if pre("scmp.") {
        return Intr::SCmp;
    }
    if pre("trap") || pre("ubsantrap") || pre("debugtrap") {
        return Intr::Trap;
    }
    if pre("threadlocal.address") {
        return Intr::TlsAddr;
    }
    if pre("expect") {
        return Intr::Expect;
    }
    if pre("load.relative") {
        return Intr::LoadRel;
    }
    if pre("fptoui.sat") {
        return Intr::FpToUiSat;
    }
    if pre("fptosi.sat") {
        return Intr::FpToSiSat;
    }
    if pre("sqrt.") {
        return Intr::Sqrt;
    }
    if pre("fabs.") {
        return Intr::FAbs;
    }
    if pre("minnum.") || pre("minimumnum.") {
        return Intr::FMin;
    }
    if pre("maxnum.") || pre("maximumnum.") {
        return Intr::FMax;
    }
    if pre("floor.") {
        return Intr::Floor;
    }
    if pre("ceil.") {
        return Intr::Ceil;
    }
    if pre("trunc.") {
        return Intr::FTrunc;
    }
    if pre("round.") {
        return Intr::FRound;
    }
    if pre("roundeven.") || pre("rint.") || pre("nearbyint.") {
        return Intr::FRoundEven;
    }
    if pre("copysign.") {
        return Intr::CopySign;
    }
    if pre("is.fpclass") {
        return Intr::IsFpClass;
    }
    if pre("ptrmask") {
        return Intr::PtrMask;
    }
    if pre("fma.") || pre("fmuladd.") {
        return Intr::FFma;
    }
    for m in ["log", "log2", "log10", "exp", "exp2", "pow", "powi", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh"] {
        if n.strip_prefix(m).is_some_and(|r| r.starts_with('.')) {
            return Intr::Math(m);
        }
    }
    if pre("vector.reduce.or") {
        return Intr::VReduce(Op::Or);
    }
    if pre("vector.reduce.and") {
        return Intr::VReduce(Op::And);
    }
    if pre("vector.reduce.add") {
        return Intr::VReduce(Op::Add);
    }
    Intr::Unknown
}
