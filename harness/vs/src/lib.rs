//! The harness side of the symbolic engine.
//!
//! Without feature `native` every function is an extern symbol that `irsym`
//! interprets; with it, the same harness runs natively on a recorded list of
//! inputs (counterexample replay, validation of path models).

pub const fn fnv(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut h: u64 = 0xcbf29ce484222325;
    let mut i = 0;
    while i < b.len() {
        h = (h ^ b[i] as u64).wrapping_mul(0x100000001b3);
        i += 1;
    }
    h & 0x7fff_ffff_ffff
}

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn vs_range(lo: u64, hi: u64) -> u64;
        fn vs_f64_bits(lo: u64, hi: u64) -> f64;
        fn vs_f64_int(lo: u64, hi: u64) -> f64;
        fn vs_concretize(x: u64) -> u64;
        fn vs_assume(c: bool);
        fn vs_check(c: bool, id: u64);
        fn vs_observe(tag: u64, v: u64);
        fn vs_reach(id: u64);
        fn vs_expect_panic(on: bool);
        fn vs_fork_select(on: bool);
        fn vs_fork(c: bool) -> bool;
        fn vs_args(n: usize, p: *const *const u8);
        fn vs_stdin(p: *const u8, n: usize);
        fn vs_stdout(p: *mut u8, n: usize) -> usize;
    }
    /// Runs a program's `main` with arguments and standard input, returns its output.
    pub fn program(args: &[&str], input: &[u8], main: impl FnOnce()) -> Vec<u8> {
        use std::io::Write;
        let args: Vec<Vec<u8>> = args.iter().map(|a| a.bytes().chain(std::iter::once(0)).collect()).collect();
        let mut argv: Vec<*const u8> = args.iter().map(|a| a.as_ptr()).collect();
        let n = argv.len();
        argv.push(std::ptr::null());
        let mut out = vec![0; 1 << 14];
        unsafe {
            vs_args(n, argv.as_ptr());
            vs_stdin(input.as_ptr(), input.len());
            main();
            let _ = std::io::stdout().flush();
            let n = vs_stdout(out.as_mut_ptr(), out.len());
            out.truncate(n);
        }
        out
    }
    #[inline(always)]
    pub fn range(lo: u64, hi: u64) -> u64 {
        unsafe { vs_range(lo, hi) }
    }
    #[inline(always)]
    pub fn f64_bits(lo: u64, hi: u64) -> f64 {
        unsafe { vs_f64_bits(lo, hi) }
    }
    #[inline(always)]
    pub fn f64_int(lo: u64, hi: u64) -> f64 {
        unsafe { vs_f64_int(lo, hi) }
    }
    #[inline(always)]
    pub fn concretize(x: u64) -> u64 {
        unsafe { vs_concretize(x) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vs_assume(c) }
    }
    #[inline(always)]
    pub fn check_id(c: bool, id: u64, _text: &'static str) {
        unsafe { vs_check(c, id) }
    }
    #[inline(always)]
    pub fn observe_id(tag: u64, v: u64) {
        unsafe { vs_observe(tag, v) }
    }
    #[inline(always)]
    pub fn reach_id(id: u64, _text: &'static str) {
        unsafe { vs_reach(id) }
    }
    #[inline(always)]
    pub fn expect_panic(on: bool) {
        unsafe { vs_expect_panic(on) }
    }
    #[inline(always)]
    pub fn fork_select(on: bool) {
        unsafe { vs_fork_select(on) }
    }
    #[inline(always)]
    pub fn fork(c: bool) -> bool {
        unsafe { vs_fork(c) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::{Cell, RefCell};
    use std::io::Write;
    thread_local! {
        static INPUTS: RefCell<(Vec<u64>, usize)> = const { RefCell::new((vec![], 0)) };
        static EXPECT: Cell<bool> = const { Cell::new(false) };
        static FAILED: Cell<u32> = const { Cell::new(0) };
    }
    extern "C" {
        fn pipe(fds: *mut i32) -> i32;
        fn dup(fd: i32) -> i32;
        fn dup2(fd: i32, to: i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    /// Where the harness itself writes.
    static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
    fn emit(s: &str) {
        use std::os::fd::FromRawFd;
        let fd = OUT.load(std::sync::atomic::Ordering::Relaxed);
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
        let _ = f.write_all(format!("{}\n", s).as_bytes());
    }
    /// Runs a program's `main` with arguments and standard input, returns its output.
    /// The arguments are the process's own: it starts over with them if they differ.
    pub fn program(args: &[&str], input: &[u8], main: impl FnOnce()) -> Vec<u8> {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        use std::os::unix::process::CommandExt;
        let have: Vec<String> = std::env::args().skip(1).collect();
        if have != args[1..] || std::env::var("VS_RUN").is_err() {
            let run = std::env::var("VS_RUN").unwrap_or_else(|_| have.join(" "));
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(&args[1..]).env("VS_RUN", run).exec();
            panic!("{e}");
        }
        unsafe {
            let (mut i, mut o) = ([0; 2], [0; 2]);
            assert!(pipe(i.as_mut_ptr()) == 0 && pipe(o.as_mut_ptr()) == 0);
            std::fs::File::from_raw_fd(i[1]).write_all(input).unwrap();
            dup2(i[0], 0);
            OUT.store(dup(1), std::sync::atomic::Ordering::Relaxed);
            dup2(o[1], 1);
            close(o[1]);
            main();
            let _ = std::io::stdout().flush();
            let saved = OUT.load(std::sync::atomic::Ordering::Relaxed);
            dup2(saved, 1);
            OUT.store(1, std::sync::atomic::Ordering::Relaxed);
            let mut out = vec![];
            std::fs::File::from_raw_fd(o[0]).read_to_end(&mut out).unwrap();
            out
        }
    }
    fn next() -> u64 {
        INPUTS.with(|i| {
            let mut i = i.borrow_mut();
            let k = i.1;
            if k >= i.0.len() {
                emit("NATIVE input-exhausted");
                std::process::exit(4);
            }
            i.1 += 1;
            i.0[k]
        })
    }
    fn ranged(lo: u64, hi: u64) -> u64 {
        let v = next();
        if v < lo || v > hi {
            emit("NATIVE input-out-of-range");
            std::process::exit(4);
        }
        v
    }
    pub fn range(lo: u64, hi: u64) -> u64 {
        ranged(lo, hi)
    }
    pub fn f64_bits(lo: u64, hi: u64) -> f64 {
        f64::from_bits(ranged(lo, hi))
    }
    pub fn f64_int(lo: u64, hi: u64) -> f64 {
        ranged(lo, hi) as f64
    }
    pub fn concretize(x: u64) -> u64 {
        x
    }
    pub fn assume(c: bool) {
        if !c {
            emit("NATIVE assume-false");
            std::process::exit(3);
        }
    }
    pub fn check_id(c: bool, id: u64, text: &'static str) {
        if !c {
            FAILED.with(|f| f.set(f.get() + 1));
            emit(&format!("FAIL {} {}", id, text));
        }
    }
    pub fn observe_id(tag: u64, v: u64) {
        emit(&format!("OBS {} {}", tag, v));
    }
    pub fn reach_id(id: u64, text: &'static str) {
        emit(&format!("REACH {} {}", id, text));
    }
    pub fn expect_panic(on: bool) {
        EXPECT.with(|e| e.set(on));
    }
    pub fn fork_select(_on: bool) {}
    pub fn fork(c: bool) -> bool {
        c
    }
    /// `replay <harness> <arg> <input>...`: runs the harness on the inputs.
    /// Exit 0: every check held; 1: a check failed or the code panicked.
    pub fn main(table: &[(&str, extern "C" fn(u64))]) {
        let mut a: Vec<String> = std::env::args().collect();
        if let Ok(run) = std::env::var("VS_RUN") {
            a = std::iter::once("replay").chain(run.split(' ')).map(|x| x.to_string()).collect();
        }
        let f = table.iter().find(|(n, _)| *n == a[1]).unwrap_or_else(|| {
            eprintln!("no harness {}", a[1]);
            std::process::exit(5)
        });
        let arg: u64 = a[2].parse().unwrap();
        let ins: Vec<u64> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
        INPUTS.with(|i| *i.borrow_mut() = (ins, 0));
        std::panic::set_hook(Box::new(|i| {
            if EXPECT.with(|e| e.get()) {
                emit("EXPECTED-PANIC");
                std::process::exit(if FAILED.with(|f| f.get()) == 0 { 0 } else { 1 });
            }
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            emit(&format!("PANIC {} at {}", m.replace('\n', " "), l));
            std::process::exit(1);
        }));
        // debug builds of the reduction recurse through long iterator adaptor types
        let (f, arg) = (f.1, arg);
        f(arg);
        let left = INPUTS.with(|i| {
            let i = i.borrow();
            i.0.len() - i.1
        });
        emit(&format!("DONE unused-inputs={}", left));
        std::process::exit(if FAILED.with(|f| f.get()) == 0 { 0 } else { 1 });
    }
}

pub use imp::*;

#[macro_export]
macro_rules! check {
    ($c:expr, $t:literal) => {
        $crate::check_id($c, const { $crate::fnv($t) }, $t)
    };
}
#[macro_export]
macro_rules! reach {
    ($t:literal) => {
        $crate::reach_id(const { $crate::fnv($t) }, $t)
    };
}
#[macro_export]
macro_rules! observe {
    ($t:literal, $v:expr) => {
        $crate::observe_id(const { $crate::fnv($t) }, $v as u64)
    };
}

/// An arbitrary `usize` in `lo..=hi`.
#[inline(always)]
pub fn idx(lo: usize, hi: usize) -> usize {
    range(lo as u64, hi as u64) as usize
}
/// An arbitrary boolean, not forked on.
#[inline(always)]
pub fn boolean() -> bool {
    range(0, 1) != 0
}
/// An arbitrary boolean, both values explored as separate paths.
#[inline(always)]
pub fn coin() -> bool {
    fork(range(0, 1) != 0)
}
/// An arbitrary value of `lo..=hi`, one path per value.
#[inline(always)]
pub fn choose(lo: usize, hi: usize) -> usize {
    concretize(range(lo as u64, hi as u64)) as usize
}
