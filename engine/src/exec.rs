//! The symbolic executor: one worker explores paths depth first; work is shared
//! between workers as decision prefixes.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    NoOp,
    MemCpy,
    MemSet,
    MemCmp,
    Bcmp,
    StrLen,
    Panic,
    Abort,
    RandKeys,
    SymRange,
    SymF64Bits,
    SymF64Int,
    Concretize,
    Assume,
    Check,
    Observe,
    Reach,
    ExpectPanic,
    ForkSelect,
    Fork,
    Stdin,
    Stdout,
    Args,
    Read,
    Write,
    Math(&'static str),
}

/// Functions of the mathematical library on double precision numbers, by the
/// names of the C library: they are computed on known values only.
const MATH: [&str; 30] = [
    "log", "log2", "log10", "log1p", "exp", "exp2", "expm1", "pow", "hypot", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "fmod", "fdim", "floor", "ceil",
    "trunc", "round", "rint", "sqrt", "fmin", "fmax",
];

fn math(n: &str, x: f64, y: f64) -> f64 {
    match n {
        "log" => x.ln(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "log1p" => x.ln_1p(),
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "expm1" => x.exp_m1(),
        "pow" => x.powf(y),
        "hypot" => x.hypot(y),
        "cbrt" => x.cbrt(),
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "atan2" => x.atan2(y),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "fmod" => x % y,
        "fdim" => {
            if x > y {
                x - y
            } else if x.is_nan() || y.is_nan() {
                f64::NAN
            } else {
                0.0
            }
        }
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "trunc" => x.trunc(),
        "round" => x.round(),
        "rint" => x.round_ties_even(),
        "sqrt" => x.sqrt(),
        "fmin" => x.min(y),
        "fmax" => x.max(y),
        _ => unreachable!(),
    }
}

/// Name-based interception: the allocator shim, memory primitives, the panic
/// entry points of core, and the harness interface.
pub fn ext_of(n: &str) -> Option<Ext> {
    Some(match n {
        "memcpy" | "memmove" => Ext::MemCpy,
        "memset" => Ext::MemSet,
        "memcmp" => Ext::MemCmp,
        "bcmp" => Ext::Bcmp,
        "strlen" => Ext::StrLen,
        "abort" | "exit" | "_exit" => Ext::Abort,
        "vs_range" => Ext::SymRange,
        "vs_f64_bits" => Ext::SymF64Bits,
        "vs_f64_int" => Ext::SymF64Int,
        "vs_concretize" => Ext::Concretize,
        "vs_assume" => Ext::Assume,
        "vs_check" => Ext::Check,
        "vs_observe" => Ext::Observe,
        "vs_reach" => Ext::Reach,
        "vs_expect_panic" => Ext::ExpectPanic,
        "vs_fork_select" => Ext::ForkSelect,
        "vs_fork" => Ext::Fork,
        "vs_stdin" => Ext::Stdin,
        "vs_stdout" => Ext::Stdout,
        "vs_args" => Ext::Args,
        "read" => Ext::Read,
        "write" => Ext::Write,
        _ => {
            if let Some(m) = MATH.iter().find(|m| **m == n) {
                return Some(Ext::Math(m));
            }
            if n.ends_with("___rustc12___rust_alloc") {
                Ext::Alloc
            } else if n.ends_with("___rustc19___rust_alloc_zeroed") {
                Ext::AllocZeroed
            } else if n.ends_with("___rustc14___rust_dealloc") {
                Ext::Dealloc
            } else if n.ends_with("___rustc14___rust_realloc") {
                Ext::Realloc
            } else if n.contains("___rust_no_alloc_shim_is_unstable") {
                Ext::NoOp
            } else if n.ends_with("hashmap_random_keys") {
                Ext::RandKeys
            } else if n.ends_with("rust_begin_unwind") || n.ends_with("rust_panic_with_hook") || n.ends_with("handle_alloc_error") || n.ends_with("rust_foreign_exception") {
                Ext::Panic
            } else if let Some(i) = n.find("4core9panicking") {
                let r = &n[i + "4core9panicking".len()..];
                let id = r.trim_start_matches(|c: char| c.is_ascii_digit());
                if id.len() < r.len() && (id.starts_with("panic") || id.starts_with("assert_failed") || id.starts_with("unreachable_display") || id.starts_with("const_panic")) {
                    Ext::Panic
                } else {
                    return None;
                }
            } else {
                return None;
            }
        }
    })
}

#[derive(Clone)]
pub struct Frame {
    pub func: Arc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub sbase: usize,
    pub ret: Option<u32>,
    pub retw: u8,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    B(bool, bool, u64), // (branch, implied, structural hash of the condition)
    C(u64, u64),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<X>,
    known: Rc<FxMap<X, bool>>,
    order: Rc<Vec<(X, X, bool, bool)>>, // a before b, strictly; signed comparison
    kval: Rc<FxMap<X, u64>>,
    pub inputs: Vec<(X, u8)>,
    pub model: Rc<Vec<u64>>,
    pub decs: Vec<Dec>,
    pub replay: usize, // decisions before this index are being replayed
    pub rp: usize,
    pub steps: u64,
    pub obs: Vec<(u64, V)>,
    pub expect_panic: bool,
    pub fork_select: bool,
    pub forks: u32,
    pub run: usize,
    pub checks: u32,
    /// what is left to read from standard input, and what was written to standard output
    stdin: Rc<VecDeque<V>>,
    stdout: Rc<Vec<V>>,
}

pub enum Stop {
    NeedB(X),
    NeedV(X),
    Panic(String),
    Ub(String),
    Err(String),
    Infeasible,
    Done,
}

pub struct Job {
    pub run: usize,
    pub prefix: Vec<Dec>,
}

pub struct RunSpec {
    pub entry: String,
    pub arg: u64,
    pub sym: u32,
}

#[derive(Default, Clone)]
pub struct RunStats {
    pub paths: u64,
    pub infeasible: u64,
    pub panics_expected: u64,
    pub forks: u64,
    pub implied: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub steps: u64,
    pub maxsteps: u64,
    pub reach: BTreeMap<u64, u64>,
    pub check_ids: BTreeMap<u64, u64>,
    pub samples: Vec<(u64, Vec<u64>, Vec<(u64, u64)>)>, // (hash, inputs, observes)
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
}
#[derive(Clone)]
pub struct Violation {
    pub kind: &'static str,
    pub id: u64,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}

pub struct Shared {
    pub prog: Program,
    pub ext: Vec<Option<Ext>>,
    pub runs: Vec<RunSpec>,
    pub queue: Mutex<VecDeque<Job>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub workers: usize,
    pub done: AtomicBool,
    pub timed_out: AtomicBool,
    pub deadline: Instant,
    pub max_steps: u64,
    pub max_viol: usize,
    pub viols: AtomicUsize,
    pub qlen: AtomicUsize,
    pub seed: u64,
    pub nsamples: usize,
    pub trace_steps: AtomicU64,
}

pub struct Worker<'a> {
    pub sh: &'a Shared,
    pub ar: Arena,
    pub sol: Solver,
    pub stack: Vec<State>,
    pub stats: Vec<RunStats>,
    pub funcs: FxMap<u32, u64>,
    pub tcheck: u64,
}

type SR<T> = Result<T, Stop>;

macro_rules! ub {
    ($e:expr) => {
        $e.map_err(Stop::Ub)?
    };
}

impl<'a> Worker<'a> {
    pub fn new(sh: &'a Shared, timeout_ms: u32) -> Self {
        Worker {
            sh,
            ar: Arena::new(),
            sol: Solver::new(timeout_ms),
            stack: vec![],
            stats: vec![RunStats::default(); sh.runs.len()],
            funcs: FxMap::default(),
            tcheck: 0,
        }
    }

    pub fn main(&mut self) {
        loop {
            let job = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.done.load(Ordering::SeqCst) {
                        return;
                    }
                    if let Some(j) = q.pop_front() {
                        self.sh.qlen.store(q.len(), Ordering::SeqCst);
                        break j;
                    }
                    let n = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if n == self.sh.workers {
                        self.sh.done.store(true, Ordering::SeqCst);
                        self.sh.cv.notify_all();
                        return;
                    }
                    q = self.sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            };
            if self.ar.n.len() > 400_000 {
                self.ar.reset();
                self.sol.reset();
            }
            let st = self.initial(job);
            self.stack.push(st);
            while let Some(mut st) = self.stack.pop() {
                if self.out_of_time() {
                    return;
                }
                self.run_path(&mut st);
                drop(st);
                if self.ar.n.len() > 3_000_000 {
                    // start over with a fresh arena; pending states go back as prefixes
                    let sts: Vec<State> = self.stack.drain(..).collect();
                    let mut q = self.sh.queue.lock().unwrap();
                    for s in sts {
                        q.push_back(Job { run: s.run, prefix: s.decs });
                    }
                    self.sh.qlen.store(q.len(), Ordering::SeqCst);
                    drop(q);
                    self.sh.cv.notify_all();
                }
            }
        }
    }

    fn out_of_time(&mut self) -> bool {
        if self.sh.done.load(Ordering::Relaxed) {
            return true;
        }
        if Instant::now() > self.sh.deadline {
            self.sh.timed_out.store(true, Ordering::SeqCst);
            self.sh.done.store(true, Ordering::SeqCst);
            self.sh.cv.notify_all();
            return true;
        }
        false
    }

    fn share(&mut self) {
        if self.stack.is_empty() || self.sh.idle.load(Ordering::Relaxed) == 0 {
            return;
        }
        if self.sh.qlen.load(Ordering::Relaxed) >= self.sh.workers {
            return;
        }
        let s = self.stack.remove(0);
        let mut q = self.sh.queue.lock().unwrap();
        q.push_back(Job { run: s.run, prefix: s.decs });
        self.sh.qlen.store(q.len(), Ordering::SeqCst);
        drop(q);
        self.sh.cv.notify_one();
    }

    fn initial(&mut self, job: Job) -> State {
        let spec = &self.sh.runs[job.run];
        let f = self.sh.prog.func(spec.sym);
        let mut regs = vec![V::I(0); f.nregs as usize];
        if f.nparams > 0 {
            regs[0] = V::I(spec.arg);
        }
        let n = job.prefix.len();
        State {
            frames: vec![Frame { func: f, blk: 0, ip: 0, regs, sbase: 0, ret: None, retw: 0 }],
            mem: Mem::new(),
            pc: vec![],
            known: Rc::new(FxMap::default()),
            order: Rc::new(vec![]),
            kval: Rc::new(FxMap::default()),
            inputs: vec![],
            model: Rc::new(vec![]),
            decs: job.prefix,
            replay: n,
            rp: 0,
            steps: 0,
            obs: vec![],
            expect_panic: false,
            fork_select: false,
            forks: 0,
            run: job.run,
            checks: 0,
            stdin: Rc::new(VecDeque::new()),
            stdout: Rc::new(vec![]),
        }
    }

    // ------------------------------------------------------------ conditions
    fn known_of(&self, st: &State, x: X, d: u32) -> Option<bool> {
        let n = self.ar.node(x);
        if n.op == Op::Const {
            return Some(n.k != 0);
        }
        if n.op == Op::Not {
            return self.known_of(st, n.a, d).map(|b| !b);
        }
        if let Some(&b) = st.known.get(&x) {
            return Some(b);
        }
        if d == 0 {
            return None;
        }
        match n.op {
            Op::And => {
                let a = self.known_of(st, n.a, d - 1);
                if a == Some(false) {
                    return a;
                }
                let b = self.known_of(st, n.b, d - 1);
                if b == Some(false) {
                    return b;
                }
                if a == Some(true) && b == Some(true) {
                    return Some(true);
                }
                None
            }
            Op::Xor if n.w == 1 => Some(self.known_of(st, n.a, d - 1)? ^ self.known_of(st, n.b, d - 1)?),
            Op::Ite if n.w == 1 => {
                if self.known_of(st, n.a, d - 1)? {
                    self.known_of(st, n.b, d - 1)
                } else {
                    self.known_of(st, n.c, d - 1)
                }
            }
            Op::Ult | Op::Slt => {
                let sg = n.op == Op::Slt;
                match self.reaches(st, n.a, n.b, sg) {
                    Some(true) => return Some(true),
                    _ => {}
                }
                // b <= a
                self.reaches(st, n.b, n.a, sg).map(|_| false)
            }
            Op::Eq if self.ar.w(n.a) > 1 => {
                for sg in [false, true] {
                    let f = self.reaches(st, n.a, n.b, sg);
                    if f == Some(true) {
                        return Some(false);
                    }
                    let g = self.reaches(st, n.b, n.a, sg);
                    if g == Some(true) {
                        return Some(false);
                    }
                    if f.is_some() && g.is_some() {
                        return Some(true);
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// Is a <= b a consequence of the comparisons decided on this path?
    /// Some(true) if even a < b is.
    fn reaches(&self, st: &State, a: X, b: X, signed: bool) -> Option<bool> {
        if st.order.is_empty() {
            return None;
        }
        let mut best: Vec<(X, bool)> = vec![(a, false)];
        let mut i = 0;
        while i < best.len() {
            let (x, s) = best[i];
            i += 1;
            for &(p, q, t, sg) in st.order.iter() {
                if p == x && sg == signed {
                    let ns = s || t;
                    match best.iter().position(|y| y.0 == q) {
                        None => best.push((q, ns)),
                        Some(k) if ns && !best[k].1 => {
                            best[k].1 = true;
                            if k < i {
                                // reconsider with the better fact
                                i = k;
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        best.iter().find(|y| y.0 == b).map(|y| y.1)
    }
    fn truth(&self, st: &State, x: X) -> SR<bool> {
        match self.known_of(st, x, 6) {
            Some(b) => Ok(b),
            None => Err(Stop::NeedB(x)),
        }
    }
    fn learn(&mut self, st: &mut State, x: X, v: bool) {
        let n = *self.ar.node(x);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::Not {
            return self.learn(st, n.a, !v);
        }
        Rc::make_mut(&mut st.known).insert(x, v);
        if n.op == Op::And && v {
            self.learn(st, n.a, true);
            self.learn(st, n.b, true);
        }
        if n.op == Op::And && !v {
            if self.known_of(st, n.a, 3) == Some(true) {
                self.learn(st, n.b, false);
            } else if self.known_of(st, n.b, 3) == Some(true) {
                self.learn(st, n.a, false);
            }
        }
        match (n.op, v) {
            (Op::Ult | Op::Slt, true) => Rc::make_mut(&mut st.order).push((n.a, n.b, true, n.op == Op::Slt)),
            (Op::Ult | Op::Slt, false) => Rc::make_mut(&mut st.order).push((n.b, n.a, false, n.op == Op::Slt)),
            (Op::Eq, true) if self.ar.w(n.a) > 1 => {
                let o = Rc::make_mut(&mut st.order);
                for sg in [false, true] {
                    o.push((n.a, n.b, false, sg));
                    o.push((n.b, n.a, false, sg));
                }
            }
            _ => {}
        }
        if n.op == Op::Eq && v {
            if let Some(k) = self.ar.as_const(n.b) {
                Rc::make_mut(&mut st.kval).insert(n.a, k as u64);
            }
        }
    }
    fn add_pc(&mut self, st: &mut State, x: X) {
        let n = *self.ar.node(x);
        if n.op == Op::And {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if !st.pc.contains(&x) {
            st.pc.push(x);
        }
    }
    fn eval_model(&self, st: &State, x: X) -> u128 {
        let mut memo = FxMap::default();
        self.ar.eval(x, &st.model, &mut memo)
    }
    /// constraints of the path condition connected (through variables) to x
    fn slice(&mut self, pc: &[X], x: X) -> Vec<X> {
        let mut vs: FxSet<u32> = self.sol.vars_of(&self.ar, x).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![x];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = self.sol.vars_of(&self.ar, c);
                if cv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(c);
                    for &v in cv.iter() {
                        vs.insert(v);
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    /// can x hold together with the path condition?  On success returns the new model.
    fn feasible(&mut self, st: &State, x: X) -> Option<Option<Rc<Vec<u64>>>> {
        let cs = self.slice(&st.pc, x);
        match self.sol.check(&self.ar, &cs) {
            Res::Unsat => Some(None),
            Res::Unknown => None,
            Res::Sat(m) => {
                let mut n: Vec<u64> = st.model.as_ref().clone();
                while n.len() < self.ar.vars.len() {
                    n.push(self.ar.vars[n.len()].lo);
                }
                for &(v, u) in m.iter() {
                    n[v as usize] = u;
                }
                Some(Some(Rc::new(n)))
            }
        }
    }

    fn decide(&mut self, st: &mut State, x: X) -> Result<(), String> {
        // replaying?
        if st.rp < st.decs.len() {
            match st.decs[st.rp] {
                Dec::B(v, implied, h) if h == self.ar.node(x).h => {
                    st.rp += 1;
                    self.learn(st, x, v);
                    if !implied {
                        let l = if v { x } else { self.ar.not(x) };
                        self.add_pc(st, l);
                    }
                    if st.rp == st.decs.len() {
                        // prefix done: establish a model
                        self.fix_model(st)?;
                    }
                    return Ok(());
                }
                d => return Err(format!("replay mismatch: expected a branch, have {:?}", d)),
            }
        }
        let v = self.eval_model(st, x) != 0;
        if self.ar.mixed(x) && self.free_var(st, x).is_none() {
            // all of its variables are known
            self.stats[st.run].implied += 1;
            st.decs.push(Dec::B(v, true, self.ar.node(x).h));
            st.rp += 1;
            self.learn(st, x, v);
            return Ok(());
        }
        let (lit, other) = {
            let n = self.ar.not(x);
            if v {
                (x, n)
            } else {
                (n, x)
            }
        };
        match self.feasible(st, other) {
            Some(None) => {
                self.stats[st.run].implied += 1;
                st.decs.push(Dec::B(v, true, self.ar.node(x).h));
                st.rp += 1;
                self.learn(st, x, v);
            }
            Some(Some(m)) => {
                self.stats[st.run].forks += 1;
                let mut o = st.clone();
                o.forks += 1;
                o.model = m;
                o.decs.push(Dec::B(!v, false, self.ar.node(x).h));
                o.rp += 1;
                self.learn(&mut o, x, !v);
                self.add_pc(&mut o, other);
                self.stack.push(o);
                st.forks += 1;
                st.decs.push(Dec::B(v, false, self.ar.node(x).h));
                st.rp += 1;
                self.learn(st, x, v);
                self.add_pc(st, lit);
                self.share();
            }
            None => return Err(format!("solver gave no answer for {}", self.ar.show(other))),
        }
        Ok(())
    }
    fn fix_model(&mut self, st: &mut State) -> Result<(), String> {
        // group the pc by independence and solve each group
        let mut m: Vec<u64> = self.ar.vars.iter().map(|v| v.lo).collect();
        let mut left = st.pc.clone();
        while let Some(x) = left.pop() {
            let cs = self.slice(&left, x);
            left.retain(|c| !cs.contains(c));
            match self.sol.check(&self.ar, &cs) {
                Res::Sat(r) => {
                    for &(v, u) in r.iter() {
                        m[v as usize] = u;
                    }
                }
                Res::Unsat => return Err("replayed prefix became infeasible".into()),
                Res::Unknown => return Err("solver gave no answer for a replayed prefix".into()),
            }
        }
        st.model = Rc::new(m);
        Ok(())
    }
    fn concretize(&mut self, st: &mut State, x: X) -> Result<(), String> {
        let v = if st.rp < st.decs.len() {
            match st.decs[st.rp] {
                Dec::C(v, h) if h == self.ar.node(x).h => {
                    st.rp += 1;
                    v
                }
                d => return Err(format!("replay mismatch: expected a value, have {:?}", d)),
            }
        } else {
            let v = self.eval_model(st, x) as u64;
            st.decs.push(Dec::C(v, self.ar.node(x).h));
            st.rp += 1;
            v
        };
        let k = self.ar.k(self.ar.w(x), v as u128);
        let e = self.ar.eq(x, k);
        if self.known_of(st, e, 6).is_some() {
            // value already forced
            Rc::make_mut(&mut st.kval).insert(x, v);
            return Ok(());
        }
        self.decide(st, e)?;
        if self.known_of(st, e, 6) == Some(true) {
            Rc::make_mut(&mut st.kval).insert(x, v);
        }
        Ok(())
    }

    /// A variable of `x` whose value is not known yet.
    fn free_var(&mut self, st: &State, x: X) -> Option<X> {
        let vs = self.sol.vars_of(&self.ar, x);
        for &v in vs.iter() {
            let x = self.ar.var(v);
            if !st.kval.contains_key(&x) {
                return Some(x);
            }
        }
        None
    }

    fn want(&self, st: &State, v: &V) -> SR<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::E(e) => match st.kval.get(e) {
                Some(k) => Ok(*k),
                None => Err(Stop::NeedV(*e)),
            },
            _ => Err(Stop::Err("wide value where an integer is needed".into())),
        }
    }
    fn x(&mut self, v: &V, w: u8) -> X {
        match v {
            V::I(k) => self.ar.k(w, *k as u128),
            V::W(k) => self.ar.k(w, **k),
            V::E(e) => *e,
            V::A(vs) => {
                // vector -> bits
                let lw = w / vs.len() as u8;
                let mut acc: Option<X> = None;
                for l in vs.iter() {
                    let p = self.x(l, lw);
                    acc = Some(match acc {
                        None => p,
                        Some(a) => self.ar.concat(p, a),
                    });
                }
                acc.unwrap()
            }
        }
    }

    // ------------------------------------------------------------ path loop
    fn run_path(&mut self, st: &mut State) {
        let start_steps = st.steps;
        let res = self.path(st);
        let run = st.run;
        self.stats[run].steps += st.steps - start_steps;
        self.stats[run].maxsteps = self.stats[run].maxsteps.max(st.steps);
        match res {
            Ok(Stop::Done) => self.finish(st),
            Ok(Stop::Infeasible) => self.stats[run].infeasible += 1,
            Ok(Stop::Panic(m)) => {
                if st.expect_panic {
                    self.stats[run].panics_expected += 1;
                    self.finish(st);
                } else {
                    self.violation(st, "panic", 0, m, None);
                }
            }
            Ok(Stop::Ub(m)) => self.violation(st, "memory", 0, m, None),
            Ok(Stop::Err(m)) | Err(m) => {
                if m == "steps" {
                    self.violation(st, "steps", 0, "step limit reached".into(), None);
                } else if m == "deadline" {
                } else {
                    let bt = self.backtrace(st).join(" < ");
                    let e = format!("{} [{}]", m, bt);
                    if self.stats[run].errors.len() < 5 {
                        self.stats[run].errors.push(e);
                    }
                    self.sh.done.store(true, Ordering::SeqCst);
                    self.sh.cv.notify_all();
                }
            }
            Ok(_) => unreachable!(),
        }
    }
    fn finish(&mut self, st: &mut State) {
        let run = st.run;
        if st.rp < st.decs.len() {
            if self.stats[run].errors.len() < 5 {
                self.stats[run].errors.push("path ended while replaying its prefix".into());
            }
            return;
        }
        self.stats[run].paths += 1;
        // keep a deterministic sample of complete paths for native validation
        let mut h = self.sh.seed ^ 0x9e37_79b9_7f4a_7c15;
        for d in &st.decs {
            h = (h.rotate_left(7)
                ^ match d {
                    Dec::B(b, ..) => *b as u64 + 1,
                    Dec::C(v, _) => v.wrapping_mul(31) + 7,
                })
            .wrapping_mul(0x517c_c1b7_2722_0a95);
        }
        h ^= h >> 31;
        let n = self.sh.nsamples;
        let s = &self.stats[run].samples;
        if s.len() < n || s.iter().any(|x| x.0 > h) {
            let ins = self.inputs_of(st, &st.model.clone());
            let mut memo = FxMap::default();
            let obs = st
                .obs
                .iter()
                .map(|(t, v)| {
                    (
                        *t,
                        match v {
                            V::I(x) => *x,
                            V::E(e) => self.ar.eval(*e, &st.model, &mut memo) as u64,
                            _ => 0,
                        },
                    )
                })
                .collect();
            let s = &mut self.stats[run].samples;
            s.push((h, ins, obs));
            s.sort();
            s.truncate(n);
        }
    }
    fn inputs_of(&self, st: &State, m: &[u64]) -> Vec<u64> {
        let mut memo = FxMap::default();
        st.inputs.iter().map(|(x, _)| self.ar.eval(*x, m, &mut memo) as u64).collect()
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| {
                let s = &self.sh.prog.syms[f.func.sym as usize];
                if s.pretty.is_empty() {
                    f.func.name.to_string()
                } else {
                    s.pretty.to_string()
                }
            })
            .collect()
    }
    fn violation(&mut self, st: &State, kind: &'static str, id: u64, msg: String, model: Option<Rc<Vec<u64>>>) {
        let m = model.unwrap_or_else(|| st.model.clone());
        let v = Violation { kind, id, msg, inputs: self.inputs_of(st, &m), stack: self.backtrace(st) };
        let vs = &mut self.stats[st.run].violations;
        if vs.iter().filter(|o| o.id == id && o.kind == kind && o.msg == v.msg).count() < 3 {
            vs.push(v);
            let n = self.sh.viols.fetch_add(1, Ordering::SeqCst) + 1;
            if n >= self.sh.max_viol {
                self.sh.done.store(true, Ordering::SeqCst);
                self.sh.cv.notify_all();
            }
        }
    }

    fn path(&mut self, st: &mut State) -> Result<Stop, String> {
        if st.replay > 0 && st.rp == 0 && st.decs.is_empty() {}
        loop {
            let r = self.burst(st);
            match r {
                Ok(()) => {
                    // periodic housekeeping
                    if st.steps > self.sh.max_steps {
                        return Err("steps".into());
                    }
                    if self.out_of_time() {
                        return Err("deadline".into());
                    }
                }
                Err(Stop::NeedB(_)) | Err(Stop::NeedV(_)) if self.out_of_time() => return Err("deadline".into()),
                Err(Stop::NeedB(x)) | Err(Stop::NeedV(x)) if self.ar.mixed(x) => match self.free_var(st, x) {
                    Some(v) => self.concretize(st, v)?,
                    None if matches!(r, Err(Stop::NeedB(_))) => self.decide(st, x)?,
                    None => self.concretize(st, x)?,
                },
                Err(Stop::NeedB(x)) => self.decide(st, x)?,
                Err(Stop::NeedV(x)) => self.concretize(st, x)?,
                Err(s) => return Ok(s),
            }
        }
    }

    /// execute up to 100k instructions
    fn burst(&mut self, st: &mut State) -> SR<()> {
        for _ in 0..100_000 {
            st.steps += 1;
            self.step(st)?;
        }
        Ok(())
    }

    #[inline]
    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let func: *const Func = &*fr.func;
        let b = unsafe { &(&(*func).blocks)[to as usize] };
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|(p, _)| *p == from).unwrap().1;
                let v = match o {
                    Opnd::R(r) => fr.regs[*r as usize].clone(),
                    Opnd::K(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            } else {
                let mut tmp: Vec<V> = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let o = &inc.iter().find(|(p, _)| *p == from).unwrap().1;
                    tmp.push(match o {
                        Opnd::R(r) => fr.regs[*r as usize].clone(),
                        Opnd::K(v) => v.clone(),
                    });
                }
                for ((d, _), v) in b.phis.iter().zip(tmp) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> SR<()> {
        let fr = st.frames.last().unwrap();
        let func: *const Func = &*fr.func;
        // SAFETY: the frame keeps the Arc<Func> alive and functions are immutable
        let ins = unsafe { &(&(&(*func).blocks)[fr.blk as usize].insts)[fr.ip as usize] };
        let fi = st.frames.len() - 1;
        macro_rules! ev {
            ($o:expr) => {
                match $o {
                    Opnd::R(r) => &st.frames[fi].regs[*r as usize],
                    Opnd::K(v) => v,
                }
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let f = &mut st.frames[fi];
                f.regs[$d as usize] = v;
                f.ip += 1;
                return Ok(());
            }};
        }
        match ins {
            Inst::Bin { op, w, d, a, b, n } => {
                let (x, y) = (ev!(a), ev!(b));
                if *n == 0 {
                    if let (V::I(x), V::I(y)) = (x, y) {
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && *y == 0 {
                            return Err(Stop::Ub("division by zero".into()));
                        }
                        let (x, y) = (*x, *y);
                        let m = mask64(*w);
                        let r = match op {
                            Op::Add => x.wrapping_add(y) & m,
                            Op::Sub => x.wrapping_sub(y) & m,
                            Op::Mul => x.wrapping_mul(y) & m,
                            Op::And => x & y,
                            Op::Or => x | y,
                            Op::Xor => x ^ y,
                            _ => Arena::fold(*op, *w, x as u128, y as u128) as u64,
                        };
                        set!(*d, V::I(r));
                    }
                    let (x, y) = (x.clone(), y.clone());
                    let r = self.bin(st, *op, *w, &x, &y)?;
                    set!(*d, r);
                }
                let (x, y) = (x.clone(), y.clone());
                let (xs, ys) = (lanes(&x)?, lanes(&y)?);
                let mut out = Vec::with_capacity(xs.len());
                for (p, q) in xs.iter().zip(ys.iter()) {
                    out.push(self.bin(st, *op, *w, p, q)?);
                }
                set!(*d, V::A(Arc::new(out)));
            }
            Inst::ICmp { p, w, d, a, b, n } => {
                let (x, y) = (ev!(a), ev!(b));
                if *n == 0 {
                    if let (V::I(x), V::I(y)) = (x, y) {
                        set!(*d, V::I(icmp64(*p, *w, *x, *y) as u64));
                    }
                    let (x, y) = (x.clone(), y.clone());
                    let r = self.icmp(*p, *w, &x, &y);
                    set!(*d, r);
                }
                let (x, y) = (x.clone(), y.clone());
                let (xs, ys) = (lanes(&x)?, lanes(&y)?);
                let mut out = Vec::with_capacity(xs.len());
                for (u, v) in xs.iter().zip(ys.iter()) {
                    out.push(self.icmp(*p, *w, u, v));
                }
                set!(*d, V::A(Arc::new(out)));
            }
            Inst::FCmp { p, w, d, a, b, n } => {
                let (x, y) = (ev!(a).clone(), ev!(b).clone());
                if *n != 0 {
                    return Err(Stop::Err("vector fcmp".into()));
                }
                let r = self.fcmp(*p, *w, &x, &y);
                set!(*d, r);
            }
            Inst::FNeg { w, d, a } => {
                let x = ev!(a).clone();
                let r = self.bin(st, Op::Xor, *w, &x, &V::I(1u64 << (*w - 1)))?;
                set!(*d, r);
            }
            Inst::Sel { d, c, a, b, ty, cvec } => {
                let cv = ev!(c);
                if *cvec {
                    let (cv, x, y) = (cv.clone(), ev!(a).clone(), ev!(b).clone());
                    let (cs, xs, ys) = (lanes(&cv)?, lanes(&x)?, lanes(&y)?);
                    let lw = ty.elem(0).bits();
                    let mut out = vec![];
                    for i in 0..cs.len() {
                        out.push(match &cs[i] {
                            V::I(k) => if *k & 1 != 0 { xs[i].clone() } else { ys[i].clone() },
                            V::E(e) => {
                                let (p, q) = (self.x(&xs[i], lw), self.x(&ys[i], lw));
                                let r = self.ar.ite(*e, p, q);
                                to_v(&self.ar, r)
                            }
                            _ => return Err(Stop::Err("select".into())),
                        });
                    }
                    set!(*d, V::A(Arc::new(out)));
                }
                let t = match cv {
                    V::I(k) => Some(*k & 1 != 0),
                    V::E(e) => {
                        let e = *e;
                        match self.known_of(st, e, 4) {
                            Some(b) => Some(b),
                            None => {
                                let (x, y) = (ev!(a), ev!(b));
                                let same = matches!((x, y), (V::I(p), V::I(q)) if p == q) || matches!((x, y), (V::E(p), V::E(q)) if p == q);
                                if same {
                                    Some(true)
                                } else if st.fork_select || !matches!(ty, Ty::Int(_) | Ty::F64 | Ty::F32) {
                                    Some(self.truth(st, e)?)
                                } else {
                                    None
                                }
                            }
                        }
                    }
                    _ => return Err(Stop::Err("select".into())),
                };
                match t {
                    Some(t) => {
                        let v = ev!(if t { a } else { b }).clone();
                        set!(*d, v)
                    }
                    None => {
                        let e = if let V::E(e) = cv { *e } else { unreachable!() };
                        let w = ty.bits();
                        let (x, y) = (ev!(a).clone(), ev!(b).clone());
                        let (x, y) = (self.x(&x, w), self.x(&y, w));
                        let r = self.ar.ite(e, x, y);
                        let r = to_v(&self.ar, r);
                        set!(*d, r)
                    }
                }
            }
            Inst::Load { d, ty, w, p } => {
                let a = self.want(st, ev!(p))?;
                let v = if *w > 0 { ub!(st.mem.read(&self.sh.prog, &mut self.ar, a, *w)) } else { self.load_agg(st, a, ty)? };
                set!(*d, v)
            }
            Inst::Store { ty, w, v, p } => {
                let a = self.want(st, ev!(p))?;
                let v = ev!(v).clone();
                if *w > 0 {
                    ub!(st.mem.write(&self.sh.prog, &mut self.ar, a, *w, &v));
                } else {
                    self.store_agg(st, a, ty, &v)?;
                }
                st.frames[fi].ip += 1;
                Ok(())
            }
            Inst::Gep { d, base, off, idx } => {
                let mut allc = true;
                let mut acc: u64 = *off as u64;
                if let V::I(b) = ev!(base) {
                    acc = acc.wrapping_add(*b);
                } else {
                    allc = false;
                }
                if allc {
                    for (o, w, s) in idx.iter() {
                        if let V::I(i) = ev!(o) {
                            acc = acc.wrapping_add((sext64(*i, *w)).wrapping_mul(*s) as u64);
                        } else {
                            allc = false;
                            break;
                        }
                    }
                }
                if allc {
                    set!(*d, V::I(acc));
                }
                let bv = ev!(base).clone();
                let mut e = self.x(&bv, 64);
                let k = self.ar.k(64, *off as u64 as u128);
                e = self.ar.bin(Op::Add, e, k);
                for (o, w, s) in idx.iter() {
                    let iv = ev!(o).clone();
                    let ix = self.x(&iv, *w);
                    let ix = if *w < 64 { self.ar.sext(ix, 64) } else { ix };
                    let sc = self.ar.k(64, *s as u64 as u128);
                    let m = self.ar.bin(Op::Mul, ix, sc);
                    e = self.ar.bin(Op::Add, e, m);
                }
                let r = to_v(&self.ar, e);
                set!(*d, r)
            }
            Inst::Cast { k, d, a, from, to } => {
                let v = ev!(a);
                if let V::I(x) = v {
                    if from.scalar() && to.scalar() {
                        let (fw, tw) = (from.bits(), to.bits());
                        if tw <= 64 {
                            match k {
                                CastK::ZExt => set!(*d, V::I(*x)),
                                CastK::Trunc | CastK::Bit => set!(*d, V::I(*x & mask64(tw))),
                                CastK::SExt => set!(*d, V::I(sext64(*x, fw) as u64 & mask64(tw))),
                                _ => {}
                            }
                        }
                    }
                }
                let v = v.clone();
                let r = self.cast(st, *k, &v, from, to)?;
                set!(*d, r)
            }
            Inst::Br(t) => {
                self.goto(st, *t);
                Ok(())
            }
            Inst::CondBr(c, t, e) => {
                let b = match ev!(c) {
                    V::I(k) => *k & 1 != 0,
                    V::E(x) => {
                        let x = *x;
                        self.truth(st, x)?
                    }
                    _ => return Err(Stop::Err("branch".into())),
                };
                self.goto(st, if b { *t } else { *e });
                Ok(())
            }
            Inst::Switch { w, v, def, cases } => {
                let v = ev!(v).clone();
                let t = match v {
                    V::I(k) => cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*def),
                    V::W(k) => cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*def),
                    V::E(e) => {
                        let mut t = *def;
                        if let Some(k) = st.kval.get(&e) {
                            t = cases.iter().find(|c| c.0 == *k as u128).map(|c| c.1).unwrap_or(*def);
                        } else {
                            for (k, l) in cases.iter() {
                                let kx = self.ar.k(*w, *k);
                                let q = self.ar.eq(e, kx);
                                if self.truth(st, q)? {
                                    t = *l;
                                    break;
                                }
                            }
                        }
                        t
                    }
                    _ => return Err(Stop::Err("switch".into())),
                };
                self.goto(st, t);
                Ok(())
            }
            Inst::Call { d, ret, f, args, aw } => {
                let t = match f {
                    Callee::Sym(s) => *s,
                    Callee::Ptr(o) => {
                        let a = self.want(st, ev!(o))?;
                        if a >> 60 != 1 || a & 0xffff_ffff != 0 {
                            return Err(Stop::Ub(format!("call through invalid pointer {:#x}", a)));
                        }
                        ((a << 4) >> 36) as u32
                    }
                    Callee::Intr(i, n) => {
                        let argv: Vec<V> = args.iter().map(|o| ev!(o).clone()).collect();
                        let r = self.intrinsic(st, *i, n, &argv, aw, ret)?;
                        let f = &mut st.frames[fi];
                        if let (Some(d), Some(r)) = (d, r) {
                            f.regs[*d as usize] = r;
                        }
                        f.ip += 1;
                        return Ok(());
                    }
                };
                if let Some(e) = self.sh.ext[t as usize] {
                    let argv: Vec<V> = args.iter().map(|o| ev!(o).clone()).collect();
                    let r = self.external(st, e, t, &argv, aw)?;
                    let f = &mut st.frames[fi];
                    if let Some(d) = d {
                        f.regs[*d as usize] = r;
                    }
                    f.ip += 1;
                    return Ok(());
                }
                let s = &self.sh.prog.syms[t as usize];
                if s.kind != SymKind::Func {
                    return Err(Stop::Err(format!("call of external function {}", s.name)));
                }
                let func = match s.func.get() {
                    Some(f) => f.clone(),
                    None => self.sh.prog.func(t),
                };
                // the digits of a number to print are followed value by value
                if args.len() > 1 && (s.name.contains("29float_to_decimal_common_exactd") || s.name.contains("32float_to_decimal_common_shortestd")) {
                    let p = self.want(st, ev!(&args[1]))?;
                    let v = ub!(st.mem.read(&self.sh.prog, &mut self.ar, p, 64));
                    let v = self.want(st, &v)?;
                    ub!(st.mem.write(&self.sh.prog, &mut self.ar, p, 64, &V::I(v)));
                }
                *self.funcs.entry(t).or_insert(0) += 1;
                if st.frames.len() > 2000 {
                    return Err(Stop::Ub("call depth over 2000".into()));
                }
                let mut regs = Vec::with_capacity(func.nregs as usize);
                for o in args.iter() {
                    regs.push(ev!(o).clone());
                }
                if regs.len() != func.nparams as usize {
                    return Err(Stop::Err(format!("arity of {}", s.name)));
                }
                regs.resize(func.nregs as usize, V::I(0));
                let sbase = st.mem.stack.len();
                let retw = if ret.scalar() { ret.bits() } else { 0 };
                st.frames.push(Frame { func, blk: 0, ip: 0, regs, sbase, ret: *d, retw });
                Ok(())
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| ev!(o).clone());
                let f = st.frames.pop().unwrap();
                st.mem.pop_stack(f.sbase);
                match st.frames.last_mut() {
                    None => Err(Stop::Done),
                    Some(c) => {
                        if let (Some(d), Some(v)) = (f.ret, v) {
                            c.regs[d as usize] = v;
                        }
                        c.ip += 1;
                        Ok(())
                    }
                }
            }
            Inst::Alloca { d, size } => {
                let a = st.mem.push_stack(*size as usize);
                set!(*d, V::I(a))
            }
            Inst::ExtractV { d, a, path } => {
                let mut v = ev!(a);
                for &i in path.iter() {
                    match v {
                        V::A(vs) => v = &vs[i as usize],
                        _ => return Err(Stop::Err("extractvalue".into())),
                    }
                }
                let v = v.clone();
                set!(*d, v)
            }
            Inst::InsertV { d, a, v, path, ty } => {
                let agg = match ev!(a) {
                    V::A(x) => V::A(x.clone()),
                    _ => zero(ty),
                };
                let nv = ev!(v).clone();
                fn ins(agg: &V, path: &[u32], nv: V) -> V {
                    if path.is_empty() {
                        return nv;
                    }
                    match agg {
                        V::A(vs) => {
                            let mut o = vs.as_ref().clone();
                            o[path[0] as usize] = ins(&vs[path[0] as usize], &path[1..], nv);
                            V::A(Arc::new(o))
                        }
                        _ => agg.clone(),
                    }
                }
                let r = ins(&agg, path, nv);
                set!(*d, r)
            }
            Inst::ExtractE { d, a, i } => {
                let i = self.want(st, ev!(i))? as usize;
                let v = ev!(a).clone();
                let r = lanes(&v)?.get(i).cloned().unwrap_or(V::I(0));
                set!(*d, r)
            }
            Inst::InsertE { d, a, v, i, ty } => {
                let i = self.want(st, ev!(i))? as usize;
                let mut xs = match ev!(a) {
                    V::A(x) => x.as_ref().clone(),
                    _ => match zero(ty) {
                        V::A(x) => x.as_ref().clone(),
                        _ => return Err(Stop::Err("insertelement".into())),
                    },
                };
                xs[i] = ev!(v).clone();
                set!(*d, V::A(Arc::new(xs)))
            }
            Inst::Shuffle { d, a, b, m, n } => {
                let (x, y) = (ev!(a).clone(), ev!(b).clone());
                let xs = lanes(&x)?;
                let out: Vec<V> = m
                    .iter()
                    .map(|&k| {
                        if k < *n {
                            xs[k as usize].clone()
                        } else {
                            match &y {
                                V::A(ys) => ys[(k - n) as usize].clone(),
                                _ => V::I(0),
                            }
                        }
                    })
                    .collect();
                set!(*d, V::A(Arc::new(out)))
            }
            Inst::Copy { d, a } => {
                let v = ev!(a).clone();
                set!(*d, v)
            }
            Inst::Rmw { op, w, d, p, v } => {
                let a = self.want(st, ev!(p))?;
                let nv = ev!(v).clone();
                let old = ub!(st.mem.read(&self.sh.prog, &mut self.ar, a, *w));
                let new = match op {
                    RmwOp::Xchg => nv,
                    RmwOp::Add => self.bin(st, Op::Add, *w, &old, &nv)?,
                    RmwOp::Sub => self.bin(st, Op::Sub, *w, &old, &nv)?,
                    RmwOp::And => self.bin(st, Op::And, *w, &old, &nv)?,
                    RmwOp::Or => self.bin(st, Op::Or, *w, &old, &nv)?,
                    RmwOp::Xor => self.bin(st, Op::Xor, *w, &old, &nv)?,
                    _ => return Err(Stop::Err("atomicrmw op".into())),
                };
                ub!(st.mem.write(&self.sh.prog, &mut self.ar, a, *w, &new));
                set!(*d, old)
            }
            Inst::CmpXchg { w, d, p, e, n } => {
                let a = self.want(st, ev!(p))?;
                let (ex, nv) = (ev!(e).clone(), ev!(n).clone());
                let old = ub!(st.mem.read(&self.sh.prog, &mut self.ar, a, *w));
                let c = self.icmp(Pred::Eq, *w, &old, &ex);
                let ok = match c {
                    V::I(k) => k != 0,
                    V::E(x) => self.truth(st, x)?,
                    _ => false,
                };
                if ok {
                    ub!(st.mem.write(&self.sh.prog, &mut self.ar, a, *w, &nv));
                }
                set!(*d, V::A(Arc::new(vec![old, V::I(ok as u64)])))
            }
            Inst::Nop => {
                st.frames[fi].ip += 1;
                Ok(())
            }
            Inst::Unreachable => Err(Stop::Ub("unreachable code reached".into())),
            Inst::Unsupported(m) => Err(Stop::Err(format!("unsupported: {}", m))),
        }
    }

    // ------------------------------------------------------------ operations
    fn bin(&mut self, st: &State, op: Op, w: u8, a: &V, b: &V) -> SR<V> {
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            match b {
                V::I(0) => return Err(Stop::Ub("division by zero".into())),
                V::E(e) => {
                    let z = self.ar.k(w, 0);
                    let q = self.ar.eq(*e, z);
                    if self.truth(st, q)? {
                        return Err(Stop::Ub("division by zero".into()));
                    }
                    // division by an unknown is hard on the solver: one path per divisor
                    let k = self.want(st, b)?;
                    return self.bin(st, op, w, a, &V::I(k));
                }
                _ => {}
            }
        }
        let (x, y) = (self.x(a, w), self.x(b, w));
        let r = self.ar.bin(op, x, y);
        Ok(to_v(&self.ar, r))
    }
    fn icmp(&mut self, p: Pred, w: u8, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            return V::I(icmp64(p, w, *x, *y) as u64);
        }
        let (x, y) = (self.x(a, w), self.x(b, w));
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let e = ar.eq(x, y);
                ar.not(e)
            }
            Pred::Ult => ar.ult(x, y),
            Pred::Ugt => ar.ult(y, x),
            Pred::Ule => {
                let e = ar.ult(y, x);
                ar.not(e)
            }
            Pred::Uge => {
                let e = ar.ult(x, y);
                ar.not(e)
            }
            Pred::Slt => ar.slt(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sle => {
                let e = ar.slt(y, x);
                ar.not(e)
            }
            Pred::Sge => {
                let e = ar.slt(x, y);
                ar.not(e)
            }
        };
        to_v(&self.ar, r)
    }
    fn fcmp(&mut self, p: FPred, w: u8, a: &V, b: &V) -> V {
        let (x, y) = (self.x(a, w), self.x(b, w));
        let ar = &mut self.ar;
        let (nx, ny) = (ar.fnan(x), ar.fnan(y));
        let uno = ar.bin(Op::Or, nx, ny);
        let lt = |ar: &mut Arena| ar.bin(Op::FLt, x, y);
        let gt = |ar: &mut Arena| ar.bin(Op::FLt, y, x);
        let eq = |ar: &mut Arena| ar.bin(Op::FEq, x, y);
        let r = match p {
            FPred::False => ar.f,
            FPred::True => ar.t,
            FPred::Oeq => eq(ar),
            FPred::Olt => lt(ar),
            FPred::Ogt => gt(ar),
            FPred::Une => {
                let e = eq(ar);
                ar.not(e)
            }
            FPred::Uge => {
                let e = lt(ar);
                ar.not(e)
            }
            FPred::Ule => {
                let e = gt(ar);
                ar.not(e)
            }
            FPred::Uno => uno,
            FPred::Ord => ar.not(uno),
            FPred::Ueq => {
                let e = eq(ar);
                ar.bin(Op::Or, e, uno)
            }
            FPred::Ult => {
                let e = lt(ar);
                ar.bin(Op::Or, e, uno)
            }
            FPred::Ugt => {
                let e = gt(ar);
                ar.bin(Op::Or, e, uno)
            }
            FPred::Oge => {
                let e = lt(ar);
                let e = ar.bin(Op::Or, e, uno);
                ar.not(e)
            }
            FPred::Ole => {
                let e = gt(ar);
                let e = ar.bin(Op::Or, e, uno);
                ar.not(e)
            }
            FPred::One => {
                let e = eq(ar);
                let e = ar.bin(Op::Or, e, uno);
                ar.not(e)
            }
        };
        to_v(&self.ar, r)
    }
    fn cast(&mut self, st: &State, k: CastK, v: &V, from: &Ty, to: &Ty) -> SR<V> {
        match k {
            CastK::Bit => {
                match (from, to) {
                    (Ty::Vec(_, fe), t) if t.scalar() => {
                        let lw = fe.bits();
                        let xs = lanes(v)?;
                        if xs.iter().all(|x| matches!(x, V::I(_))) {
                            let mut acc: u128 = 0;
                            for (i, x) in xs.iter().enumerate() {
                                if let V::I(b) = x {
                                    acc |= (*b as u128) << (i as u32 * lw as u32);
                                }
                            }
                            return Ok(V::from128(t.bits(), acc));
                        }
                        let e = self.x(v, t.bits());
                        return Ok(to_v(&self.ar, e));
                    }
                    (f, Ty::Vec(n, te)) => {
                        let w = if let Ty::Vec(m, fe) = f { (*m * fe.bits() as u32) as u8 } else { f.bits() };
                        let e = self.x(v, w);
                        let lw = te.bits();
                        let mut out = vec![];
                        for i in 0..*n {
                            let l = self.ar.extract(e, i as u8 * lw, lw);
                            out.push(to_v(&self.ar, l));
                        }
                        return Ok(V::A(Arc::new(out)));
                    }
                    _ => {}
                }
                let (fw, tw) = (from.bits(), to.bits());
                let x = self.x(v, fw);
                let r = if tw < fw {
                    self.ar.trunc(x, tw)
                } else if tw > fw {
                    self.ar.zext(x, tw)
                } else {
                    x
                };
                Ok(to_v(&self.ar, r))
            }
            CastK::ZExt | CastK::SExt | CastK::Trunc => {
                if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (from, to) {
                    let xs = lanes(v)?;
                    let mut out = vec![];
                    for x in xs.iter() {
                        out.push(self.cast(st, k, x, fe, te)?);
                    }
                    return Ok(V::A(Arc::new(out)));
                }
                let (fw, tw) = (from.bits(), to.bits());
                let x = self.x(v, fw);
                let r = match k {
                    CastK::ZExt => self.ar.zext(x, tw),
                    CastK::SExt => self.ar.sext(x, tw),
                    _ => self.ar.trunc(x, tw),
                };
                Ok(to_v(&self.ar, r))
            }
            CastK::UiToFp | CastK::SiToFp => {
                let fw = from.bits();
                match v {
                    V::I(x) => {
                        let r = match (k, to) {
                            (CastK::UiToFp, Ty::F64) => (*x as f64).to_bits(),
                            (CastK::SiToFp, Ty::F64) => (sext64(*x, fw) as f64).to_bits(),
                            (CastK::UiToFp, Ty::F32) => (*x as f32).to_bits() as u64,
                            (CastK::SiToFp, Ty::F32) => (sext64(*x, fw) as f32).to_bits() as u64,
                            _ => return Err(Stop::Err("int to fp".into())),
                        };
                        Ok(V::I(r))
                    }
                    V::E(e) => {
                        if fw > 64 {
                            return Err(Stop::Err("symbolic int to fp".into()));
                        }
                        let n = *self.ar.node(*e);
                        if n.hi < (1 << 53) && (k == CastK::UiToFp || n.slo >= 0) {
                            let mut r = self.ar.uitofp(*e);
                            if *to == Ty::F32 {
                                // exact until here, rounded once
                                r = self.ar.fpcvt(32, r);
                            }
                            return Ok(to_v(&self.ar, r));
                        }
                        if *to != Ty::F64 {
                            return Err(Stop::Err("symbolic int to f32 out of range".into()));
                        }
                        if k == CastK::SiToFp {
                            let r = self.ar.fp1(Op::SiToFp, 64, *e);
                            return Ok(V::E(r));
                        }
                        Err(Stop::Err("symbolic uitofp out of range".into()))
                    }
                    _ => Err(Stop::Err("wide int to fp".into())),
                }
            }
            CastK::FpToUi | CastK::FpToSi => match (v, from) {
                (V::I(x), Ty::F64) => {
                    let f = f64::from_bits(*x);
                    let r: u128 = if k == CastK::FpToUi { f as u128 } else { (f as i128) as u128 };
                    Ok(V::from128(to.bits(), r))
                }
                (V::E(e), Ty::F64) => {
                    let n = *self.ar.node(*e);
                    if n.op == Op::UiToFp {
                        let w = self.ar.w(n.a);
                        let tw = to.bits();
                        let r = if tw >= w { self.ar.zext(n.a, tw) } else { self.ar.trunc(n.a, tw) };
                        return Ok(to_v(&self.ar, r));
                    }
                    let r = self.ar.fp1(if k == CastK::FpToUi { Op::FpToUi } else { Op::FpToSi }, to.bits(), *e);
                    Ok(V::E(r))
                }
                _ => Err(Stop::Err("fp to int".into())),
            },
            CastK::FpExt => match (v, from, to) {
                (V::I(x), Ty::F32, Ty::F64) => Ok(V::I((f32::from_bits(*x as u32) as f64).to_bits())),
                (V::E(e), Ty::F32, Ty::F64) => {
                    let r = self.ar.fpcvt(64, *e);
                    Ok(to_v(&self.ar, r))
                }
                _ => Err(Stop::Err("fpext".into())),
            },
            CastK::FpTrunc => match (v, from, to) {
                (V::I(x), Ty::F64, Ty::F32) => Ok(V::I((f64::from_bits(*x) as f32).to_bits() as u64)),
                (V::E(e), Ty::F64, Ty::F32) => {
                    let r = self.ar.fpcvt(32, *e);
                    Ok(to_v(&self.ar, r))
                }
                _ => Err(Stop::Err("fptrunc".into())),
            },
        }
    }
    fn load_agg(&mut self, st: &State, a: u64, t: &Ty) -> SR<V> {
        if t.scalar() {
            return Ok(ub!(st.mem.read(&self.sh.prog, &mut self.ar, a, t.bits())));
        }
        if let Ty::Vec(_, e) = t {
            if e.bits() % 8 != 0 {
                let w = t.count() as u32 * e.bits() as u32;
                if w % 8 != 0 || w > 64 {
                    return Err(Stop::Err("load of bit vector".into()));
                }
                let it = Ty::Int(w as u16);
                let v = ub!(st.mem.read(&self.sh.prog, &mut self.ar, a, w as u8));
                return self.cast(st, CastK::Bit, &v, &it, t);
            }
            if t.store_size() == 16 && e.bits() == 8 {
                // fast path for hash-table groups
                let v = ub!(st.mem.read(&self.sh.prog, &mut self.ar, a, 128));
                if let V::W(x) = v {
                    let b = x.to_le_bytes();
                    return Ok(V::A(Arc::new(b.iter().map(|c| V::I(*c as u64)).collect())));
                }
            }
        }
        let mut out = vec![];
        for i in 0..t.count() {
            let v = self.load_agg(st, a + t.field_off(i), t.elem(i))?;
            out.push(v);
        }
        Ok(V::A(Arc::new(out)))
    }
    fn store_agg(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> SR<()> {
        if t.scalar() {
            ub!(st.mem.write(&self.sh.prog, &mut self.ar, a, t.bits(), v));
            return Ok(());
        }
        if let Ty::Vec(_, e) = t {
            if e.bits() % 8 != 0 {
                let w = t.count() as u32 * e.bits() as u32;
                if w % 8 != 0 || w > 64 {
                    return Err(Stop::Err("store of bit vector".into()));
                }
                let it = Ty::Int(w as u16);
                let x = self.cast(st, CastK::Bit, v, t, &it)?;
                ub!(st.mem.write(&self.sh.prog, &mut self.ar, a, w as u8, &x));
                return Ok(());
            }
        }
        let z;
        let vs = match v {
            V::A(vs) => vs,
            _ => {
                z = match zero(t) {
                    V::A(x) => x,
                    _ => unreachable!(),
                };
                &z
            }
        };
        for i in 0..t.count() {
            self.store_agg(st, a + t.field_off(i), t.elem(i), &vs[i])?;
        }
        Ok(())
    }

    fn overflow(&mut self, op: Op, signed: bool, w: u8, a: &V, b: &V) -> SR<(X, X)> {
        let (x, y) = (self.x(a, w), self.x(b, w));
        let r = self.ar.bin(op, x, y);
        if let (Some(p), Some(q)) = (self.ar.as_const(x), self.ar.as_const(y)) {
            let ov = if signed {
                let (p, q) = (sext128(p, w), sext128(q, w));
                let t = match op {
                    Op::Add => p.checked_add(q),
                    Op::Sub => p.checked_sub(q),
                    _ => p.checked_mul(q),
                };
                match t {
                    None => true,
                    Some(t) => sext128(t as u128 & mask(w), w) != t,
                }
            } else {
                match op {
                    Op::Add => p.checked_add(q).map_or(true, |t| t > mask(w)),
                    Op::Sub => p < q,
                    _ => p.checked_mul(q).map_or(true, |t| t > mask(w)),
                }
            };
            let k = self.ar.k(1, ov as u128);
            return Ok((r, k));
        }
        if w > 64 {
            return Err(Stop::Err("wide symbolic overflow arithmetic".into()));
        }
        let (nx, ny) = (*self.ar.node(x), *self.ar.node(y));
        let ov = if !signed {
            match op {
                Op::Add => {
                    if nx.hi as u128 + ny.hi as u128 <= mask(w) {
                        self.ar.f
                    } else {
                        self.ar.ult(r, x)
                    }
                }
                Op::Sub => self.ar.ult(x, y),
                _ => {
                    if nx.hi as u128 * ny.hi as u128 <= mask(w) {
                        self.ar.f
                    } else {
                        let (zx, zy) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                        let p = self.ar.bin(Op::Mul, zx, zy);
                        let h = self.ar.extract(p, w, w);
                        let z = self.ar.k(w, 0);
                        let e = self.ar.eq(h, z);
                        self.ar.not(e)
                    }
                }
            }
        } else {
            let smin = -(1i128 << (w - 1));
            let smax = (1i128 << (w - 1)) - 1;
            let (xl, xh, yl, yh) = (nx.slo as i128, nx.shi as i128, ny.slo as i128, ny.shi as i128);
            let (l, h) = match op {
                Op::Add => (xl + yl, xh + yh),
                Op::Sub => (xl - yh, xh - yl),
                _ => {
                    let ps = [xl * yl, xl * yh, xh * yl, xh * yh];
                    (*ps.iter().min().unwrap(), *ps.iter().max().unwrap())
                }
            };
            if l >= smin && h <= smax {
                self.ar.f
            } else {
                let w2 = if op == Op::Mul { 2 * w } else { w + 1 };
                let (sx, sy) = (self.ar.sext(x, w2), self.ar.sext(y, w2));
                let p = self.ar.bin(op, sx, sy);
                let back = self.ar.sext(r, w2);
                let e = self.ar.eq(p, back);
                self.ar.not(e)
            }
        };
        Ok((r, ov))
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, name: &str, a: &[V], aw: &[u8], ret: &Ty) -> SR<Option<V>> {
        let w = aw.first().copied().unwrap_or(0);
        match i {
            Intr::Nop => Ok(None),
            Intr::MemCpy | Intr::MemMove => {
                let n = self.want(st, &a[2])?;
                if n == 0 {
                    return Ok(None);
                }
                let (d, s) = (self.want(st, &a[0])?, self.want(st, &a[1])?);
                ub!(st.mem.copy(&self.sh.prog, d, s, n as usize));
                Ok(None)
            }
            Intr::MemSet => {
                let n = self.want(st, &a[2])?;
                let d = self.want(st, &a[0])?;
                self.memset(st, d, &a[1], n)?;
                Ok(None)
            }
            Intr::Assume => Ok(None), // compiler facts are not trusted, and not needed
            Intr::AddOv(s) | Intr::SubOv(s) | Intr::MulOv(s) => {
                let op = match i {
                    Intr::AddOv(_) => Op::Add,
                    Intr::SubOv(_) => Op::Sub,
                    _ => Op::Mul,
                };
                if !s && w == 64 {
                    if let (V::I(x), V::I(y)) = (&a[0], &a[1]) {
                        let (r, o) = match op {
                            Op::Add => x.overflowing_add(*y),
                            Op::Sub => x.overflowing_sub(*y),
                            _ => x.overflowing_mul(*y),
                        };
                        return Ok(Some(V::A(Arc::new(vec![V::I(r), V::I(o as u64)]))));
                    }
                }
                let (r, o) = self.overflow(op, s, w, &a[0], &a[1])?;
                Ok(Some(V::A(Arc::new(vec![to_v(&self.ar, r), to_v(&self.ar, o)]))))
            }
            Intr::AddSat(s) | Intr::SubSat(s) => {
                let op = if matches!(i, Intr::AddSat(_)) { Op::Add } else { Op::Sub };
                if w == 0 {
                    return Err(Stop::Err(format!("vector {}", name)));
                }
                let (r, o) = self.overflow(op, s, w, &a[0], &a[1])?;
                let sat = if !s {
                    self.ar.k(w, if op == Op::Add { u128::MAX } else { 0 })
                } else {
                    let x = self.x(&a[0], w);
                    let z = self.ar.k(w, 0);
                    let neg = self.ar.slt(x, z);
                    let (mn, mx) = (self.ar.k(w, 1u128 << (w - 1)), self.ar.k(w, (1u128 << (w - 1)) - 1));
                    self.ar.ite(neg, mn, mx)
                };
                let v = self.ar.ite(o, sat, r);
                Ok(Some(to_v(&self.ar, v)))
            }
            Intr::Fshl | Intr::Fshr => {
                let s = match &a[2] {
                    V::I(k) => (*k % w as u64) as u128,
                    _ => return Err(Stop::Err("symbolic funnel shift".into())),
                };
                let s = if i == Intr::Fshr { (w as u128 - s) % w as u128 } else { s };
                let (h, l) = (self.x(&a[0], w), self.x(&a[1], w));
                if s == 0 {
                    let r = if i == Intr::Fshl { h } else { l };
                    return Ok(Some(to_v(&self.ar, r)));
                }
                if let (V::I(p), V::I(q)) = (&a[0], &a[1]) {
                    let r = ((*p as u128) << s) | ((*q as u128) >> (w as u128 - s));
                    return Ok(Some(V::from128(w, r)));
                }
                let hi = self.ar.extract(h, 0, w - s as u8);
                let lo = self.ar.extract(l, w - s as u8, s as u8);
                let r = self.ar.concat(hi, lo);
                Ok(Some(to_v(&self.ar, r)))
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                if w == 0 {
                    return Err(Stop::Err(format!("vector {}", name)));
                }
                let (x, y) = (self.x(&a[0], w), self.x(&a[1], w));
                let c = match i {
                    Intr::UMin | Intr::UMax => self.ar.ult(x, y),
                    _ => self.ar.slt(x, y),
                };
                let r = match i {
                    Intr::UMin | Intr::SMin => self.ar.ite(c, x, y),
                    _ => self.ar.ite(c, y, x),
                };
                Ok(Some(to_v(&self.ar, r)))
            }
            Intr::Ctpop => {
                let v = match &a[0] {
                    V::I(x) => x.count_ones() as u64,
                    V::W(x) => x.count_ones() as u64,
                    V::E(e) => {
                        let e = *e;
                        let mut acc = self.ar.k(w, 0);
                        for b in 0..w {
                            let x = self.ar.extract(e, b, 1);
                            let x = self.ar.zext(x, w);
                            acc = self.ar.bin(Op::Add, acc, x);
                        }
                        return Ok(Some(to_v(&self.ar, acc)));
                    }
                    _ => return Err(Stop::Err("ctpop".into())),
                };
                Ok(Some(V::from128(w, v as u128)))
            }
            Intr::Cttz | Intr::Ctlz => {
                let v = match &a[0] {
                    V::I(x) => {
                        if i == Intr::Cttz {
                            (x.trailing_zeros() as u64).min(w as u64)
                        } else {
                            (x.leading_zeros() as u64 + w as u64).wrapping_sub(64).min(w as u64)
                        }
                    }
                    V::W(x) => {
                        if i == Intr::Cttz {
                            (x.trailing_zeros() as u64).min(w as u64)
                        } else {
                            (x.leading_zeros() as u64 + w as u64).wrapping_sub(128).min(w as u64)
                        }
                    }
                    V::E(e) => {
                        let e = *e;
                        let mut acc = self.ar.k(w, w as u128);
                        let order: Vec<u8> = if i == Intr::Cttz { (0..w).rev().collect() } else { (0..w).collect() };
                        for b in order {
                            let x = self.ar.extract(e, b, 1);
                            let k = self.ar.k(w, if i == Intr::Cttz { b as u128 } else { (w - 1 - b) as u128 });
                            acc = self.ar.ite(x, k, acc);
                        }
                        // a shift amount, nearly always: one path per value
                        let acc = to_v(&self.ar, acc);
                        self.want(st, &acc)?
                    }
                    _ => return Err(Stop::Err("cttz".into())),
                };
                Ok(Some(V::from128(w, v as u128)))
            }
            Intr::Bswap | Intr::Bitrev => {
                let step = if i == Intr::Bswap { 8 } else { 1 };
                let e = self.x(&a[0], w);
                let mut acc: Option<X> = None;
                let mut b = 0;
                while b < w {
                    let p = self.ar.extract(e, b, step);
                    acc = Some(match acc {
                        None => p,
                        Some(h) => self.ar.concat(h, p),
                    });
                    b += step;
                }
                Ok(Some(to_v(&self.ar, acc.unwrap())))
            }
            Intr::Abs => {
                let x = self.x(&a[0], w);
                let z = self.ar.k(w, 0);
                let neg = self.ar.slt(x, z);
                let m = self.ar.bin(Op::Sub, z, x);
                let r = self.ar.ite(neg, m, x);
                Ok(Some(to_v(&self.ar, r)))
            }
            Intr::UCmp | Intr::SCmp => {
                let (x, y) = (self.x(&a[0], w), self.x(&a[1], w));
                let (lt, gt) = if i == Intr::UCmp { (self.ar.ult(x, y), self.ar.ult(y, x)) } else { (self.ar.slt(x, y), self.ar.slt(y, x)) };
                let rw = ret.bits();
                let (m1, z, p1) = (self.ar.k(rw, u128::MAX), self.ar.k(rw, 0), self.ar.k(rw, 1));
                let g = self.ar.ite(gt, p1, z);
                let r = self.ar.ite(lt, m1, g);
                Ok(Some(to_v(&self.ar, r)))
            }
            Intr::Trap => Err(Stop::Panic("trap".into())),
            Intr::TlsAddr | Intr::Expect => Ok(Some(a[0].clone())),
            Intr::LoadRel => {
                let p = self.want(st, &a[0])?;
                let o = self.want(st, &a[1])?;
                let v = ub!(st.mem.read(&self.sh.prog, &mut self.ar, p.wrapping_add(o), 32));
                match v {
                    V::I(x) => Ok(Some(V::I(p.wrapping_add(sext64(x, 32) as u64)))),
                    _ => Err(Stop::Err("load.relative".into())),
                }
            }
            Intr::FpToUiSat | Intr::FpToSiSat => match (&a[0], w) {
                (V::I(x), 64) => {
                    let f = f64::from_bits(*x);
                    let rw = ret.bits();
                    let r: u128 = if i == Intr::FpToUiSat { (f as u128).min(mask(rw)) } else { ((f as i128).clamp(-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1)) as u128 };
                    Ok(Some(V::from128(rw, r)))
                }
                (V::E(e), 64) => {
                    let n = *self.ar.node(*e);
                    let tw = ret.bits();
                    if n.op == Op::UiToFp && n.hi <= ((mask64(tw) >> 1) as f64).to_bits() {
                        let ww = self.ar.w(n.a);
                        let r = if tw >= ww { self.ar.zext(n.a, tw) } else { self.ar.trunc(n.a, tw) };
                        return Ok(Some(to_v(&self.ar, r)));
                    }
                    Err(Stop::NeedV(*e))
                }
                _ => Err(Stop::Err(name.to_string())),
            },
            Intr::Sqrt => match &a[0] {
                V::I(x) if w == 64 => Ok(Some(V::I(f64::from_bits(*x).sqrt().to_bits()))),
                V::E(e) if w == 64 => {
                    let r = self.ar.fp1(Op::FSqrt, 64, *e);
                    Ok(Some(V::E(r)))
                }
                _ => Err(Stop::Err(name.to_string())),
            },
            Intr::FAbs => {
                let x = self.x(&a[0], w);
                let e = self.ar.extract(x, 0, w - 1);
                let r = self.ar.zext(e, w);
                // keep interval knowledge when the sign is already clear
                let r = if self.ar.fnn(x) { x } else { r };
                Ok(Some(to_v(&self.ar, r)))
            }
            Intr::FMin | Intr::FMax => {
                let (x, y) = (self.x(&a[0], w), self.x(&a[1], w));
                let (nx, ny) = (self.ar.fnan(x), self.ar.fnan(y));
                let c = if i == Intr::FMin { self.ar.bin(Op::FLt, y, x) } else { self.ar.bin(Op::FLt, x, y) };
                let r = self.ar.ite(c, y, x);
                let r = self.ar.ite(nx, y, r);
                let r = self.ar.ite(ny, x, r);
                Ok(Some(to_v(&self.ar, r)))
            }
            Intr::Floor | Intr::Ceil | Intr::FTrunc | Intr::FRound | Intr::FRoundEven => {
                let mode = match i {
                    Intr::Floor => 0,
                    Intr::Ceil => 1,
                    Intr::FTrunc => 2,
                    Intr::FRound => 3,
                    _ => 4,
                };
                match &a[0] {
                    V::I(x) => Ok(Some(V::I(Arena::integral(mode, w, *x as u128) as u64))),
                    V::E(e) => {
                        let r = self.ar.fint(mode, *e);
                        Ok(Some(to_v(&self.ar, r)))
                    }
                    _ => Err(Stop::Err(name.to_string())),
                }
            }
            Intr::CopySign => {
                let (x, y) = (self.x(&a[0], w), self.x(&a[1], w));
                let s = self.ar.extract(y, w - 1, 1);
                let m = self.ar.extract(x, 0, w - 1);
                let r = self.ar.concat(s, m);
                Ok(Some(to_v(&self.ar, r)))
            }
            Intr::IsFpClass => match (&a[0], &a[1]) {
                (V::I(x), V::I(m)) if w == 64 => {
                    let f = f64::from_bits(*x);
                    let neg = f.is_sign_negative();
                    let bit = match f.classify() {
                        std::num::FpCategory::Nan => {
                            if x & (1 << 51) != 0 {
                                1
                            } else {
                                0
                            }
                        }
                        std::num::FpCategory::Infinite => if neg { 2 } else { 9 },
                        std::num::FpCategory::Normal => if neg { 3 } else { 8 },
                        std::num::FpCategory::Subnormal => if neg { 4 } else { 7 },
                        std::num::FpCategory::Zero => if neg { 5 } else { 6 },
                    };
                    Ok(Some(V::I((*m >> bit) & 1)))
                }
                (V::E(e), V::I(3)) => {
                    let r = self.ar.fnan(*e);
                    Ok(Some(to_v(&self.ar, r)))
                }
                (V::E(e), V::I(m)) => {
                    let (e, m) = (*e, *m);
                    let ar = &mut self.ar;
                    let (eb, mb) = if w == 64 { (11u8, 52u8) } else { (8, 23) };
                    let sign = ar.extract(e, w - 1, 1);
                    let plus = ar.not(sign);
                    let expo = ar.extract(e, mb, eb);
                    let mant = ar.extract(e, 0, mb);
                    let quiet = ar.extract(e, mb - 1, 1);
                    let (e0, e1) = (ar.k(eb, 0), ar.k(eb, (1u128 << eb) - 1));
                    let m0 = ar.k(mb, 0);
                    let (low, top, none) = (ar.eq(expo, e0), ar.eq(expo, e1), ar.eq(mant, m0));
                    let some = ar.not(none);
                    let nan = ar.bin(Op::And, top, some);
                    let loud = ar.not(quiet);
                    let (nl, nt) = (ar.not(low), ar.not(top));
                    let normal = ar.bin(Op::And, nl, nt);
                    let inf = ar.bin(Op::And, top, none);
                    let sub = ar.bin(Op::And, low, some);
                    let zero = ar.bin(Op::And, low, none);
                    let mut r = ar.f;
                    for (bit, p, q) in [(0, nan, loud), (1, nan, quiet), (2, inf, sign), (3, normal, sign), (4, sub, sign), (5, zero, sign), (6, zero, plus), (7, sub, plus), (8, normal, plus), (9, inf, plus)] {
                        if m >> bit & 1 == 1 {
                            let c = ar.bin(Op::And, p, q);
                            r = ar.bin(Op::Or, r, c);
                        }
                    }
                    Ok(Some(to_v(&self.ar, r)))
                }
                _ => Err(Stop::Err(name.to_string())),
            },
            Intr::PtrMask => {
                let r = self.bin(st, Op::And, 64, &a[0], &a[1])?;
                Ok(Some(r))
            }
            Intr::FFma if w == 64 => {
                let (x, y, z) = (self.want(st, &a[0])?, self.want(st, &a[1])?, self.want(st, &a[2])?);
                Ok(Some(V::I(f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits())))
            }
            Intr::Math(n) if w == 64 => {
                let x = self.want(st, &a[0])?;
                let y = if a.len() > 1 { self.want(st, &a[1])? } else { 0 };
                let r = if n == "powi" { f64::from_bits(x).powi(y as u32 as i32) } else { math(n, f64::from_bits(x), f64::from_bits(y)) };
                Ok(Some(V::I(r.to_bits())))
            }
            Intr::FFma | Intr::Math(_) => Err(Stop::Err(name.to_string())),
            Intr::VReduce(op) => {
                let xs = lanes(&a[0])?;
                let rw = ret.bits();
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = self.bin(st, op, rw, &acc, x)?;
                }
                Ok(Some(acc))
            }
            Intr::Unknown => Err(Stop::Err(format!("intrinsic {}", name))),
        }
    }

    fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> SR<()> {
        if n == 0 {
            return Ok(());
        }
        let off = (d & 0xffff_ffff) as usize;
        let n = n as usize;
        let o = ub!(st.mem.get_mut(&self.sh.prog, d));
        if off + n > o.data.len() {
            return Err(Stop::Ub(format!("memset of {} bytes at offset {} of a {}-byte object", n, off, o.data.len())));
        }
        match v {
            V::I(b) => {
                for x in &mut o.data[off..off + n] {
                    *x = *b as u8;
                }
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        s.0 = 0;
                    }
                }
            }
            V::E(e) => {
                if o.sym.is_empty() {
                    o.sym = vec![(0, 0); o.data.len()];
                }
                for s in &mut o.sym[off..off + n] {
                    *s = (*e, 0);
                }
            }
            _ => return Err(Stop::Err("memset value".into())),
        }
        Ok(())
    }

    fn location(&mut self, st: &State, p: &V) -> Option<String> {
        let a = if let V::I(a) = p { *a } else { return None };
        let pr = &self.sh.prog;
        if st.mem.size(pr, a).ok()? < 24 {
            return None;
        }
        let f = st.mem.read(pr, &mut self.ar, a, 64).ok()?;
        let l = st.mem.read(pr, &mut self.ar, a + 8, 64).ok()?;
        let ln = st.mem.read(pr, &mut self.ar, a + 16, 32).ok()?;
        if let (V::I(f), V::I(l), V::I(ln)) = (f, l, ln) {
            if l > 400 {
                return None;
            }
            return Some(format!("{}:{}", self.text(st, f, l)?, ln));
        }
        None
    }
    fn text(&mut self, st: &State, f: u64, l: u64) -> Option<String> {
        if l > 1000 {
            return None;
        }
        let mut s = vec![];
        for i in 0..l {
            match st.mem.read(&self.sh.prog, &mut self.ar, f + i, 8).ok()? {
                V::I(c) => s.push(c as u8),
                _ => return None,
            }
        }
        String::from_utf8(s).ok()
    }

    fn external(&mut self, st: &mut State, e: Ext, sym: u32, a: &[V], aw: &[u8]) -> SR<V> {
        match e {
            Ext::Alloc | Ext::AllocZeroed => {
                let n = self.want(st, &a[0])?;
                if n > 1 << 24 {
                    return Err(Stop::Ub(format!("allocation of {} bytes", n)));
                }
                Ok(V::I(st.mem.alloc(n as usize)))
            }
            Ext::Dealloc => {
                let p = self.want(st, &a[0])?;
                ub!(st.mem.free(p));
                Ok(V::I(0))
            }
            Ext::Realloc => {
                let p = self.want(st, &a[0])?;
                let n = self.want(st, &a[3])?;
                if n > 1 << 24 {
                    return Err(Stop::Ub(format!("allocation of {} bytes", n)));
                }
                let old = ub!(st.mem.size(&self.sh.prog, p));
                let q = st.mem.alloc(n as usize);
                ub!(st.mem.copy(&self.sh.prog, q, p, old.min(n as usize)));
                ub!(st.mem.free(p));
                Ok(V::I(q))
            }
            Ext::NoOp => Ok(V::I(0)),
            Ext::Math(n) => {
                let x = self.want(st, &a[0])?;
                let y = if a.len() > 1 { self.want(st, &a[1])? } else { 0 };
                Ok(V::I(math(n, f64::from_bits(x), f64::from_bits(y)).to_bits()))
            }
            Ext::MemCpy => {
                let n = self.want(st, &a[2])?;
                let (d, s) = (self.want(st, &a[0])?, self.want(st, &a[1])?);
                ub!(st.mem.copy(&self.sh.prog, d, s, n as usize));
                Ok(a[0].clone())
            }
            Ext::MemSet => {
                let n = self.want(st, &a[2])?;
                let d = self.want(st, &a[0])?;
                let b = match &a[1] {
                    V::I(x) => V::I(*x & 255),
                    V::E(e) => {
                        let t = self.ar.trunc(*e, 8);
                        to_v(&self.ar, t)
                    }
                    v => v.clone(),
                };
                self.memset(st, d, &b, n)?;
                Ok(a[0].clone())
            }
            Ext::MemCmp | Ext::Bcmp => {
                let n = self.want(st, &a[2])?;
                let (p, q) = (self.want(st, &a[0])?, self.want(st, &a[1])?);
                let mut res = self.ar.k(32, 0);
                for i in (0..n).rev() {
                    let x = ub!(st.mem.read(&self.sh.prog, &mut self.ar, p + i, 8));
                    let y = ub!(st.mem.read(&self.sh.prog, &mut self.ar, q + i, 8));
                    let (x, y) = (self.x(&x, 8), self.x(&y, 8));
                    let eq = self.ar.eq(x, y);
                    let (zx, zy) = (self.ar.zext(x, 32), self.ar.zext(y, 32));
                    let df = if e == Ext::Bcmp { self.ar.k(32, 1) } else { self.ar.bin(Op::Sub, zx, zy) };
                    res = self.ar.ite(eq, res, df);
                }
                Ok(to_v(&self.ar, res))
            }
            Ext::StrLen => {
                let p = self.want(st, &a[0])?;
                let mut n = 0;
                loop {
                    match ub!(st.mem.read(&self.sh.prog, &mut self.ar, p + n, 8)) {
                        V::I(0) => return Ok(V::I(n)),
                        V::I(_) => n += 1,
                        V::E(e) => return Err(Stop::NeedV(e)),
                        _ => unreachable!(),
                    }
                }
            }
            Ext::Panic => {
                let s = &self.sh.prog.syms[sym as usize];
                let nm = if s.pretty.is_empty() { s.name } else { s.pretty };
                let mut m = String::new();
                if let (Some(V::I(p)), Some(V::I(l))) = (a.first(), a.get(1)) {
                    if nm.ends_with("panic") || nm.ends_with("panic_str_literal") || s.name.ends_with("9panicking5panic") {
                        if let Some(t) = self.text(st, *p, *l) {
                            m = format!(" \"{}\"", t);
                        }
                    }
                }
                let mut loc = None;
                for v in a.iter().rev() {
                    loc = self.location(st, v);
                    if loc.is_some() {
                        break;
                    }
                }
                let short = nm.rsplit("::").next().unwrap_or(nm);
                let short = short.rsplit("9panicking").next().unwrap_or(short);
                Err(Stop::Panic(format!("{}{} at {}", short, m, loc.unwrap_or_else(|| "?".into()))))
            }
            Ext::Abort => Err(Stop::Panic("abort".into())),
            Ext::RandKeys => Ok(V::A(Arc::new(vec![V::I(0x0123_4567_89ab_cdef), V::I(0x0f1e_2d3c_4b5a_6978)]))),
            Ext::SymRange | Ext::SymF64Bits | Ext::SymF64Int => {
                let (lo, hi) = (self.want(st, &a[0])?, self.want(st, &a[1])?);
                if lo > hi {
                    return Err(Stop::Infeasible);
                }
                let name = format!("i{}", st.inputs.len());
                let w: u8 = if e == Ext::SymF64Bits { 64 } else { (64 - hi.leading_zeros()).max(1) as u8 };
                if lo == hi {
                    let k = self.ar.k(w, lo as u128);
                    st.inputs.push((k, w));
                    return Ok(V::I(if e == Ext::SymF64Int { (lo as f64).to_bits() } else { lo }));
                }
                let x = self.ar.var_at(&name, w, lo, hi);
                // a fresh path starts from the variable's lower bound
                let vi = self.ar.node(x).k as usize;
                if st.model.len() <= vi {
                    let m = Rc::make_mut(&mut st.model);
                    while m.len() <= vi {
                        let l = self.ar.vars[m.len()].lo;
                        m.push(l);
                    }
                }
                st.inputs.push((x, w));
                let r = match e {
                    Ext::SymF64Int => {
                        if hi >= 1 << 53 {
                            return Err(Stop::Err("vs_f64_int range".into()));
                        }
                        self.ar.uitofp(x)
                    }
                    _ => self.ar.zext(x, 64),
                };
                Ok(V::E(r))
            }
            Ext::Concretize => Ok(V::I(self.want(st, &a[0])?)),
            Ext::Fork => {
                let b = match &a[0] {
                    V::I(k) => *k & 1 != 0,
                    V::E(x) => self.truth(st, *x)?,
                    _ => return Err(Stop::Err("vs_fork".into())),
                };
                Ok(V::I(b as u64))
            }
            Ext::Assume => {
                let _ = aw;
                match &a[0] {
                    V::I(k) => {
                        if *k & 1 == 0 {
                            return Err(Stop::Infeasible);
                        }
                    }
                    V::E(x) => {
                        let x = *x;
                        match self.known_of(st, x, 6) {
                            Some(true) => {}
                            Some(false) => return Err(Stop::Infeasible),
                            None => {
                                // an assumption is not a decision: it is re-derived on replay
                                if st.rp >= st.decs.len() && self.eval_model(st, x) == 0 {
                                    match self.feasible(st, x) {
                                        Some(Some(m)) => st.model = m,
                                        Some(None) => return Err(Stop::Infeasible),
                                        None => return Err(Stop::Err("solver gave no answer for an assumption".into())),
                                    }
                                }
                                self.learn(st, x, true);
                                self.add_pc(st, x);
                            }
                        }
                    }
                    _ => return Err(Stop::Err("assume".into())),
                }
                Ok(V::I(0))
            }
            Ext::Check => {
                let id = self.want(st, &a[1])?;
                let run = st.run;
                let replaying = st.rp < st.decs.len();
                if !replaying {
                    self.stats[run].checks += 1;
                    *self.stats[run].check_ids.entry(id).or_insert(0) += 1;
                    st.checks += 1;
                }
                match &a[0] {
                    V::I(k) => {
                        if *k & 1 == 0 {
                            if !replaying {
                                self.violation(st, "check", id, String::new(), None);
                            }
                            return Err(Stop::Infeasible);
                        }
                    }
                    V::E(x) => {
                        let x = *x;
                        match self.known_of(st, x, 6) {
                            Some(true) => {}
                            Some(false) => {
                                if !replaying {
                                    self.violation(st, "check", id, String::new(), None);
                                }
                                return Err(Stop::Infeasible);
                            }
                            None => {
                                if !replaying {
                                    self.stats[run].checks_solver += 1;
                                    let n = self.ar.not(x);
                                    match self.feasible(st, n) {
                                        None => return Err(Stop::Err("solver gave no answer for an assertion".into())),
                                        Some(None) => self.learn(st, x, true),
                                        Some(Some(m)) => {
                                            self.violation(st, "check", id, String::new(), Some(m));
                                            // continue with the assertion assumed
                                            match self.feasible(st, x) {
                                                Some(Some(m)) => {
                                                    st.model = m;
                                                    self.learn(st, x, true);
                                                    self.add_pc(st, x);
                                                }
                                                _ => return Err(Stop::Infeasible),
                                            }
                                        }
                                    }
                                } else {
                                    self.learn(st, x, true);
                                    self.add_pc(st, x);
                                }
                            }
                        }
                    }
                    _ => return Err(Stop::Err("check".into())),
                }
                Ok(V::I(0))
            }
            Ext::Observe => {
                let t = self.want(st, &a[0])?;
                st.obs.push((t, a[1].clone()));
                Ok(V::I(0))
            }
            Ext::Reach => {
                let t = self.want(st, &a[0])?;
                if st.rp >= st.decs.len() {
                    *self.stats[st.run].reach.entry(t).or_insert(0) += 1;
                }
                Ok(V::I(0))
            }
            Ext::ExpectPanic => {
                st.expect_panic = self.want(st, &a[0])? & 1 != 0;
                Ok(V::I(0))
            }
            // the standard streams: queues of bytes
            Ext::Stdin => {
                let (p, n) = (self.want(st, &a[0])?, self.want(st, &a[1])?);
                let mut q = VecDeque::new();
                for i in 0..n {
                    q.push_back(ub!(st.mem.read(&self.sh.prog, &mut self.ar, p + i, 8)));
                }
                st.stdin = Rc::new(q);
                Ok(V::I(0))
            }
            Ext::Stdout => {
                let (p, n) = (self.want(st, &a[0])?, self.want(st, &a[1])?);
                let out = std::mem::take(&mut st.stdout);
                let n = out.len().min(n as usize);
                for (i, v) in out[..n].iter().enumerate() {
                    ub!(st.mem.write(&self.sh.prog, &mut self.ar, p + i as u64, 8, v));
                }
                Ok(V::I(n as u64))
            }
            Ext::Args => {
                let (n, p) = (self.want(st, &a[0])?, self.want(st, &a[1])?);
                for (name, v) in [("3imp4ARGC", n), ("3imp4ARGV", p)] {
                    let i = self.sh.prog.syms.iter().position(|s| s.name.contains("4args") && s.name.contains(name));
                    let Some(i) = i else { return Err(Stop::Err("where std keeps the arguments".into())) };
                    let g = sym_addr(i as u32);
                    ub!(st.mem.write(&self.sh.prog, &mut self.ar, g, 64, &V::I(v)));
                }
                Ok(V::I(0))
            }
            Ext::Read => {
                let (fd, p, n) = (self.want(st, &a[0])?, self.want(st, &a[1])?, self.want(st, &a[2])?);
                if fd != 0 {
                    return Err(Stop::Err(format!("read from file descriptor {}", fd)));
                }
                let n = st.stdin.len().min(n as usize);
                for i in 0..n {
                    let v = st.stdin[i].clone();
                    ub!(st.mem.write(&self.sh.prog, &mut self.ar, p + i as u64, 8, &v));
                }
                Rc::make_mut(&mut st.stdin).drain(..n);
                Ok(V::I(n as u64))
            }
            Ext::Write => {
                let (fd, p, n) = (self.want(st, &a[0])?, self.want(st, &a[1])?, self.want(st, &a[2])?);
                let mut w = vec![];
                for i in 0..n {
                    w.push(ub!(st.mem.read(&self.sh.prog, &mut self.ar, p + i, 8)));
                }
                if fd == 1 {
                    Rc::make_mut(&mut st.stdout).extend(w);
                }
                Ok(V::I(n))
            }
            Ext::ForkSelect => {
                st.fork_select = self.want(st, &a[0])? & 1 != 0;
                Ok(V::I(0))
            }
        }
    }
}

fn zero(t: &Ty) -> V {
    match t {
        Ty::Struct(ts, _) => V::A(Arc::new(ts.iter().map(zero).collect())),
        Ty::Arr(n, e) => V::A(Arc::new(vec![zero(e); *n as usize])),
        Ty::Vec(n, e) => V::A(Arc::new(vec![zero(e); *n as usize])),
        t if t.scalar() => V::from128(t.bits(), 0),
        _ => V::I(0),
    }
}

fn lanes(v: &V) -> SR<Arc<Vec<V>>> {
    match v {
        V::A(x) => Ok(x.clone()),
        _ => Err(Stop::Err("vector operand expected".into())),
    }
}

fn icmp64(p: Pred, w: u8, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        _ => {
            let (x, y) = (sext64(x, w), sext64(y, w));
            match p {
                Pred::Slt => x < y,
                Pred::Sle => x <= y,
                Pred::Sgt => x > y,
                _ => x >= y,
            }
        }
    }
}

pub fn functions_of(ws: &[FxMap<u32, u64>]) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    for w in ws {
        for k in w.keys() {
            s.insert(*k);
        }
    }
    s
}
