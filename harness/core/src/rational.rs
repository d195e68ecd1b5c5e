//! The rational numbers against exact fractions.
use crate::dense::*;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::implementors::VecVecMatrix;
use phlite::matrices::*;
use phlite::reduction::*;
use vs::{check, observe, reach};

/// Q stores numerator and denominator in two words; which is which is found
/// out, and checked, with the crate's own arithmetic.
pub struct Words(Option<bool>); // Some(true): numerator first

fn raw(q: Q) -> [u64; 2] {
    let mut w = [0u64; 2];
    unsafe { std::ptr::copy_nonoverlapping(&q as *const Q as *const u8, w.as_mut_ptr() as *mut u8, 16) };
    w
}

fn int(k: i64) -> Q {
    let mut q = Q::one();
    for _ in 1..k.abs() {
        q = (q + Q::one()).unwrap();
    }
    if k < 0 {
        q.additive_inverse()
    } else {
        q
    }
}

impl Words {
    pub fn new() -> Words {
        if std::mem::size_of::<Q>() != 16 {
            return Words(None);
        }
        let two = raw(int(2));
        let first = if two == [2, 1] { true } else if two == [1, 2] { false } else { return Words(None) };
        let w = Words(Some(first));
        for (n, d) in [(3, 2), (-5, 7), (4, 9)] {
            if w.get(int(n) * int(d).mult_inverse()) != (n, d) {
                return Words(None);
            }
        }
        w
    }
    /// n / d, coprime, d > 0, n != 0.
    pub fn of(&self, n: i64, d: i64) -> Q {
        match self.0 {
            Some(first) => {
                let w = if first { [n as u64, d as u64] } else { [d as u64, n as u64] };
                let mut q = Q::one();
                unsafe { std::ptr::copy_nonoverlapping(w.as_ptr() as *const u8, &mut q as *mut Q as *mut u8, 16) };
                q
            }
            None => {
                let (n, d) = (vs::concretize(n as u64) as i64, vs::concretize(d as u64) as i64);
                int(n) * int(d).mult_inverse()
            }
        }
    }
    /// Numerator and denominator; without a known layout the fraction is
    /// searched for.
    pub fn get(&self, q: Q) -> (i64, i64) {
        match self.0 {
            Some(first) => {
                let w = raw(q);
                let (n, d) = if first { (w[0], w[1]) } else { (w[1], w[0]) };
                (n as i64, d as i64)
            }
            None => {
                for d in 1..200 {
                    for n in 1..200 {
                        let p = int(n) * int(d).mult_inverse();
                        if p == q {
                            return (n, d);
                        }
                        if p.additive_inverse() == q {
                            return (-n, d);
                        }
                    }
                }
                (0, 0)
            }
        }
    }
}

/// An arbitrary reduced fraction, |numerator| <= n, denominator <= d.
fn fraction(n: u64, d: u64) -> (i64, i64) {
    let neg = vs::coin();
    let a = vs::range(1, n);
    let b = vs::choose(1, d as usize) as u64;
    for k in 2..=n.min(d) {
        vs::assume((a % k != 0) | (b % k != 0));
    }
    (if neg { -(a as i64) } else { a as i64 }, b as i64)
}

/// A fraction whose numerator and denominator need most of 31 bits: the numerator is one
/// of eight neighbours of a large number, one path each.
fn wide(s: usize) -> (i64, i64) {
    let (a, b) = [(1 << 31, 3), (1 << 30, 65537), (123456789, 1 << 30), (3 << 29, (1 << 31) - 1), (1, 1 << 20), (6 << 20, 510510)][s];
    let a = a + vs::choose(0, 7) as i64;
    let neg = vs::coin();
    // in lowest terms
    let g = gcd(a, b);
    (if neg { -a / g } else { a / g }, b / g)
}

fn gcd(a: i64, b: i64) -> i64 {
    if vs::fork(b == 0) {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Sums, products and inverses of wide fractions. arg: which first, which second fraction.
#[cfg(feature = "h_rational_wide")]
#[no_mangle]
pub extern "C" fn h_rational_wide(arg: u64) {
    let mut a = Arg(arg);
    let (s, t) = (a.take() as usize, a.take() as usize);
    let w = Words::new();
    let ((a, b), (c, d)) = (wide(s), wide(t));
    let (x, y) = (w.of(a, b), w.of(c, d));
    let num = a * d + c * b;
    // identities are compared modulo 2^64: a necessary condition
    match x + y {
        None => check!(num == 0, "a sum of fractions vanishes only if they are opposite"),
        Some(s) => {
            let (n, e) = w.get(s);
            check!(n.wrapping_mul(b * d) == e.wrapping_mul(num), "the sum of fractions is their sum");
            check!((e > 0) & ((b * d) % e == 0) & ((n < 0) == (num < 0)), "a sum is in lowest terms with positive denominator");
            check!(gcd(n.abs(), e) == 1, "a sum is in lowest terms with positive denominator");
            observe!("numerator", n);
            observe!("denominator", e);
        }
    }
    check!((x == y) == ((a == c) & (b == d)), "fractions are equal exactly if their values are");
    let (n, e) = w.get(x * y);
    check!(n.wrapping_mul(b * d) == e.wrapping_mul(a * c), "the product of fractions is their product");
    check!((e > 0) & ((b * d) % e == 0) & ((n < 0) == ((a < 0) != (c < 0))), "a product is in lowest terms with positive denominator");
    check!(gcd(n.abs(), e) == 1, "a product is in lowest terms with positive denominator");
    let (n, e) = w.get(x.mult_inverse());
    check!((n == if a < 0 { -b } else { b }) & (e == a.abs()), "the inverse of a fraction is its reciprocal");
    check!(w.get(x.additive_inverse()) == (-a, b), "the opposite of a fraction");
    check!((x + x.additive_inverse()).is_none(), "a fraction plus its opposite is zero");
    reach!("rational: end");
}

fn reduced(n: i64, d: i64, limit: i64) -> bool {
    let mut r = (d >= 1) & (n != 0);
    for k in 2..=limit {
        r &= (n % k != 0) | (d % k != 0);
    }
    r
}

/// arg: numerator bound, denominator bound, operation.
#[cfg(feature = "h_rational")]
#[no_mangle]
pub extern "C" fn h_rational(arg: u64) {
    let mut a = Arg(arg);
    let (nb, db, op) = (a.take(), a.take(), a.take());
    let w = Words::new();
    let (a, b) = fraction(nb, db);
    let x = w.of(a, b);
    match op {
        0 => {
            let (c, d) = fraction(nb, db);
            let y = w.of(c, d);
            let num = a * d + c * b;
            match x + y {
                None => {
                    check!(num == 0, "a sum of fractions vanishes only if they are opposite");
                    reach!("rational: sum vanishes");
                }
                Some(s) => {
                    let (n, e) = w.get(s);
                    check!(n * (b * d) == e * num, "the sum of fractions is their sum");
                    check!(reduced(n, e, (db * db) as i64), "a sum is in lowest terms with positive denominator");
                    observe!("numerator", n);
                    observe!("denominator", e);
                }
            }
            check!((x == y) == ((a == c) & (b == d)), "fractions are equal exactly if their values are");
        }
        1 => {
            let (c, d) = fraction(nb, db);
            let y = w.of(c, d);
            let (n, e) = w.get(x * y);
            check!(n * (b * d) == e * (a * c), "the product of fractions is their product");
            check!(reduced(n, e, (nb.max(db)) as i64), "a product is in lowest terms with positive denominator");
            observe!("numerator", n);
            observe!("denominator", e);
        }
        _ => {
            let (n, e) = w.get(x.mult_inverse());
            check!(n * a == e * b, "the inverse of a fraction is its reciprocal");
            check!(e >= 1, "an inverse has a positive denominator");
            check!(w.get(x.mult_inverse().mult_inverse()) == (a, b), "inverting twice gives the fraction back");
            let (n, e) = w.get(x.additive_inverse());
            check!((n == -a) & (e == b), "the opposite of a fraction");
            check!((x + x.additive_inverse()).is_none(), "a fraction plus its opposite is zero");
            check!(w.get(x * x.mult_inverse()) == (1, 1), "a fraction times its inverse is one");
            check!(w.get(Q::one()) == (1, 1), "one is one");
            match x + None {
                Some(s) => check!(w.get(s) == (a, b), "a fraction plus zero is the fraction"),
                None => check!(false, "a fraction plus zero is the fraction"),
            }
            check!(w.get(x * Q::one()) == (a, b), "a fraction times one is the fraction");
        }
    }
    reach!("rational: end");
}

/// Reduction over Q: R = DV, with integer entries of at most `b` in absolute
/// value; exact arithmetic on fractions (small enough for machine words).
/// arg: size, bound, mode (0 strictly upper triangular, 1 any).
#[cfg(feature = "h_standard_q")]
#[no_mangle]
pub extern "C" fn h_standard_q(arg: u64) {
    let mut a = Arg(arg);
    let (n, b, mode) = (a.take() as usize, a.take() as usize, a.take());
    let w = Words::new();
    let mut d = vec![vec![0i64; n]; n];
    let mut cols = vec![vec![]; n];
    for j in 0..n {
        for i in 0..n {
            if i < j || mode == 1 {
                let k = vs::choose(0, 2 * b as usize) as i64 - b as i64;
                d[j][i] = k;
                if k != 0 {
                    cols[j].push((w.of(k, 1), i));
                }
            }
        }
    }
    let m = VecVecMatrix::from(cols).with_trivial_filtration();
    let v = standard_algo(&m);
    let mut lows = vec![];
    for j in 0..n {
        // R's column over a common denominator
        let vc: Vec<(i64, i64, usize)> = v.column(j).map(|(q, i)| (w.get(q).0, w.get(q).1, i)).collect();
        let mut den = 1;
        for t in &vc {
            den *= t.1;
        }
        let mut one = 0;
        let mut r = vec![0i64; n];
        for &(x, e, i) in &vc {
            check!(i <= j, "V adds earlier columns only");
            if i == j {
                one += x * (den / e);
            }
            for k in 0..n {
                r[k] += x * (den / e) * d[i][k];
            }
        }
        check!(one == den, "V has one on the diagonal");
        let l = (0..n).rev().find(|&k| r[k] != 0);
        if l.is_some() {
            check!(!lows.contains(&l), "the pivots of R = DV are distinct");
        }
        let mut c = product(&m, &v).build_bhcol(j);
        let e = c.pop_pivot();
        check!(e.map(|e| e.row_index) == l, "the pivot of the product column is the last row of R");
        observe!("low", l.map_or(0, |l| l + 1));
        lows.push(l);
    }
    reach!("rational: reduction end");
}
