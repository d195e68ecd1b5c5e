//! Simplices as numbers, and the bases made of them.
use hcore::dense::Arg;
use ordered_float::NotNan;
use phlite::matrices::{ColBasis, SplitByDimension};
use phlite_rips::*;
use vs::{check, observe, reach};

pub type Dist = Vec<Vec<NotNan<f64>>>;

pub fn nn(x: f64) -> NotNan<f64> {
    NotNan::new(x).unwrap()
}

/// An arbitrary distance: any non-negative float including infinity
/// (`levels` 0), or one of 0..levels.
pub fn any_distance(levels: u64) -> NotNan<f64> {
    if levels == 0 {
        let x = vs::f64_bits(0, f64::INFINITY.to_bits());
        unsafe { NotNan::new_unchecked(x) }
    } else {
        let x = vs::f64_int(0, levels - 1);
        unsafe { NotNan::new_unchecked(x) }
    }
}

/// Any symmetric matrix with zero diagonal. With `levels` 97 or 98 all but two
/// distances are fixed: at 97 they differ by a few units of the 46th binary digit, at 98
/// they are all over the range of floats.
pub fn any_distances(n: usize, levels: u64) -> Dist {
    // which of two distances is larger is one path each
    vs::fork_select(true);
    let mut d = vec![vec![nn(0.0); n]; n];
    if levels > 90 {
        let one = 1f64.to_bits();
        for i in 0..n {
            for j in 0..i {
                let k = ((i * i + 5 * j) % 9) as u64;
                let open = (i, j) == (n - 1, 0) || (i, j) == (n / 2 + 1, n / 2);
                let x = match (levels, open) {
                    (97, false) => f64::from_bits(one + (k << 7)),
                    (97, true) => vs::f64_bits(one, one + (9 << 7)),
                    (_, false) => [1e-300, 0.0, 3.5, 1e300, 4294967297.0, 4294967298.0, 1e-9, f64::INFINITY, 7e299][k as usize],
                    _ => vs::f64_bits(0, f64::INFINITY.to_bits()),
                };
                d[i][j] = unsafe { NotNan::new_unchecked(x) };
                d[j][i] = d[i][j];
            }
        }
        return d;
    }
    for i in 0..n {
        for j in 0..i {
            let x = any_distance(levels);
            d[i][j] = x;
            d[j][i] = x;
        }
    }
    d
}

pub fn index(v: &[usize], n: usize) -> Option<RipsIndex> {
    RipsIndex::from_indices(v.iter().copied(), n)
}

/// The subsets of `0..n` with `k` elements, ascending.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for m in 0u32..1 << n {
        if m.count_ones() as usize == k {
            out.push((0..n).filter(|i| m >> i & 1 == 1).collect());
        }
    }
    out
}

pub fn diameter(d: &Dist, s: &[usize]) -> NotNan<f64> {
    let mut m = nn(0.0);
    for &a in s {
        for &b in s {
            if d[a][b] > m {
                m = d[a][b];
            }
        }
    }
    m
}

/// A number of vertices given by two digits: below 90 itself, else a large one.
fn points(k: u64) -> usize {
    match k {
        90 => 100,
        91 => 255,
        92 => 1000,
        93 => 65_535,
        94 => (1 << 32) - 1,
        _ => k as usize,
    }
}

/// Any sequence of vertices survives the trip through its number.
/// arg: points, vertices of one simplex, vertices of another, ascending only.
#[cfg(feature = "h_rips_index")]
#[no_mangle]
pub extern "C" fn h_rips_index(arg: u64) {
    let mut a = Arg(arg);
    let n = points(a.take());
    let (k, l) = (a.take() as usize, a.take() as usize);
    let ascending = a.take() == 1;
    let draw = |k: usize| -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for i in 0..k {
            let x = vs::idx(if ascending { i } else { 0 }, n - 1);
            if ascending && i > 0 {
                vs::assume(v[i - 1] < x);
            }
            v.push(x);
        }
        v
    };
    let s = draw(k);
    match index(&s, n) {
        None => {
            check!(k == 0, "a simplex with vertices has an index");
            reach!("rips index: no vertices");
        }
        Some(x) => {
            check!(k > 0, "the empty simplex has no index");
            let t = x.to_vec(n);
            check!(t.len() == k, "an index keeps the number of vertices");
            for i in 0..k {
                check!(t[i] == s[i], "an index keeps the vertices");
            }
            check!(x.dimension(n) + 1 == k, "the dimension is the number of vertices less one");
            let u = draw(l);
            if let Some(y) = index(&u, n) {
                let mut same = k == l;
                for i in 0..k.min(l) {
                    same &= s[i] == u[i];
                }
                check!((x == y) == same, "two indices are equal exactly if the simplices are");
            }
            for i in 0..t.len() {
                observe!("vertex", t[i]);
            }
            reach!("rips index: end");
        }
    }
}

/// arg: points, maximal dimension, levels of the distances (0: any float).
#[cfg(feature = "h_rips_bases")]
#[no_mangle]
pub extern "C" fn h_rips_bases(arg: u64) {
    let mut a = Arg(arg);
    let (n, top, levels) = (a.take() as usize, a.take() as usize, a.take());
    let d = any_distances(n, levels);
    let b = build_rips_bases(&d, top);
    let mut all = vec![];
    for q in 0..=top {
        let want = subsets(n, q + 1);
        let s = b.in_dimension(q);
        check!(s.size() == want.len(), "a dimension has one element per simplex");
        let mut last = None;
        let mut seen = vec![false; want.len()];
        for i in 0..s.size() {
            let x = s.element(i);
            let v = x.to_vec(n);
            match want.iter().position(|w| *w == v) {
                Some(k) => {
                    check!(!seen[k], "every simplex is there once");
                    seen[k] = true;
                }
                None => check!(false, "a basis element is a simplex of its dimension, vertices ascending"),
            }
            let f = diameter(&d, &v);
            if let Some((g, y)) = last {
                check!(g <= f, "a basis is in the order of the diameters");
                check!((g < f) | (y < x), "simplices of equal diameter are in the order of their indices");
            }
            last = Some((f, x));
            all.push(x);
        }
        if want.len() > 1 {
            reach!("rips bases: several simplices in a dimension");
        }
        if q > 0 && want.is_empty() {
            reach!("rips bases: a dimension without simplices");
        }
    }
    check!(b.size() == all.len(), "the basis of all dimensions has the size of its parts");
    for i in 0..all.len() {
        check!(b.element(i) == all[i], "the basis of all dimensions lists one dimension after the other");
    }
    reach!("rips bases: end");
}
