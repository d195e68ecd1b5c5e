use crate::fp::*;
use crate::with_field;
use phlite::fields::*;
use vs::{check, observe, reach};

fn field<CF: Invertible + 'static>(f: F<CF>) {
    let p = f.p;
    let i = vs::range(1, p - 1);
    let j = vs::range(1, p - 1);
    let (a, b) = (f.of(i), f.of(j));
    check!(f.val(CF::one()) == 1, "one is the unit of the field");
    let s = a + b;
    // whether the sum vanishes forks once
    let sv = f.opt(s);
    check!(sv == (i + j) % p, "a + b is addition mod p, None exactly for zero");
    let q = f.val(a * b);
    check!(q == (i * j) % p, "a * b is multiplication mod p");
    check!(f.val(a.additive_inverse()) == p - i, "additive_inverse is negation mod p");
    check!((a + a.additive_inverse()).is_none(), "a + (-a) is zero");
    let inv = f.val(a.mult_inverse());
    check!((inv >= 1) & (inv < p), "mult_inverse stays in the field");
    check!((inv * i) % p == 1, "mult_inverse(a) * a is one mod p");
    check!(f.val(a * a.mult_inverse()) == 1, "a * mult_inverse(a) is one");
    check!(f.opt(a + None) == i, "a + zero is a");
    check!(f.opt(a + Some(b)) == sv, "adding Some(b) is adding b");
    check!((a == b) == (i == j), "equality of coefficients is equality of values");
    observe!("sum", sv);
    observe!("product", q);
    observe!("inverse", inv);
    reach!("fields: end");
}

#[cfg(feature = "h_field")]
#[no_mangle]
pub extern "C" fn h_field(p: u64) {
    with_field!(p, f, field(f))
}

/// Associativity and distributivity straight from the operations.
fn laws<CF: Invertible + 'static>(f: F<CF>) {
    let p = f.p;
    let (a, b, c) = (f.of(vs::range(1, p - 1)), f.of(vs::range(1, p - 1)), f.of(vs::range(1, p - 1)));
    check!(f.val((a * b) * c) == f.val(a * (b * c)), "multiplication is associative");
    check!(f.val(a * b) == f.val(b * a), "multiplication is commutative");
    let l = c + (a + b);
    let r = a + (b + c);
    check!(f.opt(l) == f.opt(r), "addition is associative and commutative");
    let l = (a + b).map(|s| s * c);
    let r = a * c + b * c;
    check!(f.opt(l) == f.opt(r), "multiplication distributes over addition");
    observe!("abc", f.val(a * b * c));
    reach!("fields: laws end");
}

#[cfg(feature = "h_field_laws")]
#[no_mangle]
pub extern "C" fn h_field_laws(p: u64) {
    with_field!(p, f, laws(f))
}
