//! Boundary and coboundary of a simplex, and the values on them.
use crate::indices::*;
use hcore::dense::Arg;
use hcore::fp::F;
use hcore::with_field;
use phlite::fields::*;
use phlite::matrices::*;
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use vs::{check, observe, reach};

/// A simplex with `k` of `n` vertices, symbolic: ascending.
fn simplex(n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for i in 0..k {
        let x = vs::idx(i, n - k + i);
        if i > 0 {
            vs::assume(v[i - 1] < x);
        }
        v.push(x);
    }
    v
}

/// A simplex with `k` of `n` vertices, of which one is arbitrary.
fn one_open(n: usize, k: usize) -> Vec<usize> {
    let mut v = vec![n / 2 + 1, 3, n - 1][..k - 1].to_vec();
    let x = vs::choose(0, n - 1);
    vs::assume(!v.contains(&x));
    v.push(x);
    v.sort();
    v
}

fn without(v: &[usize], i: usize) -> Vec<usize> {
    v.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect()
}

/// Sum of the coefficients of `row` in a column, not forked on.
fn coefficient<CF: Invertible + 'static>(f: &F<CF>, col: &[(CF, RipsIndex)], row: RipsIndex) -> u64 {
    let mut s = 0;
    for &(c, r) in col {
        s += (r == row) as u64 * f.val(c);
    }
    s % f.p
}

fn sign(p: u64, i: usize) -> u64 {
    if i % 2 == 0 {
        1
    } else {
        p - 1
    }
}

/// The boundary squares to zero and the coboundary is its transpose.
/// arg: points, vertices of the simplex, mode (0 boundary, 1 coboundary).
fn go<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (n, k, mode) = (a.size(), a.take() as usize, a.take());
    let p = f.p;
    let zero = vec![vec![nn(0.0); n]; n];
    let s = if mode == 1 && n > 99 { one_open(n, k) } else { simplex(n, k) };
    let x = index(&s, n).unwrap();
    let d = build_rips_boundary_matrix::<CF>(zero.clone(), 0);
    if mode == 0 {
        let col: Vec<(CF, RipsIndex)> = d.column(x).collect();
        if k == 1 {
            check!(col.is_empty(), "a vertex has no boundary");
            reach!("rips matrices: vertex");
        } else {
            check!(col.len() == k, "a boundary has one face per vertex");
            for i in 0..k {
                check!(coefficient(&f, &col, index(&without(&s, i), n).unwrap()) == sign(p, i), "a face without its i-th vertex has sign (-1)^i");
            }
            if k > 2 {
                // boundary of the boundary, face by face of codimension two
                let bb: Vec<(u64, Vec<(CF, RipsIndex)>)> = col.iter().map(|&(c, r)| (f.val(c), d.column(r).collect())).collect();
                for i in 0..k {
                    for j in i + 1..k {
                        let row = index(&without(&without(&s, j), i), n).unwrap();
                        let mut sum = 0;
                        for (c, col) in &bb {
                            sum += c * coefficient(&f, col, row);
                        }
                        check!(sum % p == 0, "the boundary of a boundary is zero");
                    }
                }
                reach!("rips matrices: boundary of a boundary");
            }
        }
        for &(c, r) in &col {
            observe!("coefficient", f.val(c));
            observe!("dimension", r.dimension(n));
        }
        reach!("rips matrices: boundary end");
    } else {
        let co = build_rips_coboundary_matrix::<CF>(zero, 0);
        let col: Vec<(CF, RipsIndex)> = co.column(x).collect();
        check!(col.len() == n - k, "a coboundary has one coface per other vertex");
        for &(c, r) in &col {
            let t = r.to_vec(n);
            check!(t.len() == k + 1, "a coface has one more vertex");
            let up: Vec<(CF, RipsIndex)> = d.column(r).collect();
            check!(coefficient(&f, &up, x) == f.val(c), "the coboundary is the transpose of the boundary");
            let mut ascending = true;
            for i in 1..t.len() {
                ascending &= t[i - 1] < t[i];
            }
            check!(ascending & (t[k] < n), "a coface has its vertices in ascending order");
            observe!("coefficient", f.val(c));
        }
        for i in 0..col.len() {
            for j in 0..i {
                check!(col[i].1 != col[j].1, "the cofaces are distinct");
            }
        }
        if n == k {
            reach!("rips matrices: no coface");
        }
        reach!("rips matrices: coboundary end");
    }
}

#[cfg(feature = "h_rips_matrices")]
#[no_mangle]
pub extern "C" fn h_rips_matrices(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, go(f, a))
}

fn values_on<CF: Invertible + 'static, M>(f: &F<CF>, m: &M, d: &Dist, x: RipsIndex, s: &[usize])
where
    M: MatrixOracle<CoefficientField = CF, RowT = RipsIndex, ColT = RipsIndex> + HasRowFiltration<FiltrationT = ordered_float::NotNan<f64>>,
{
    let n = d.len();
    let own = m.filtration_value(x);
    check!(own == diameter(d, s), "the value of a simplex is the largest distance between its vertices");
    let plain: Vec<(CF, RipsIndex)> = m.column(x).collect();
    let mut count = 0;
    for e in m.column_with_filtration(x) {
        let t = e.row_index.to_vec(n);
        check!(e.filtration_value == diameter(d, &t), "an entry of a column carries its row's value");
        check!(e.filtration_value == m.filtration_value(e.row_index), "a column's values are the rows' values");
        if t.len() > s.len() {
            check!(own <= e.filtration_value, "a coface is not earlier than its face");
        } else {
            check!(own >= e.filtration_value, "a face is not later than its coface");
        }
        check!(plain.iter().filter(|y| y.1 == e.row_index && f.val(y.0) == f.val(e.coeff)).count() == 1, "a column with values has the column's entries");
        count += 1;
    }
    check!(count == plain.len(), "a column with values has all of the column's entries");
}

/// arg: p, points, vertices of the simplex, levels of the distances.
fn values<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (n, k, levels) = (a.take() as usize, a.take() as usize, a.take());
    let d = any_distances(n, levels);
    let all = subsets(n, k);
    let s = all[vs::choose(0, all.len() - 1)].clone();
    let x = index(&s, n).unwrap();
    let b = build_rips_boundary_matrix::<CF>(d.clone(), 0);
    let c = build_rips_coboundary_matrix::<CF>(d.clone(), 0);
    values_on(&f, &b, &d, x, &s);
    values_on(&f, &b.matrix, &d, x, &s);
    values_on(&f, &c, &d, x, &s);
    values_on(&f, &c.matrix, &d, x, &s);
    observe!("value", diameter(&d, &s).to_bits());
    reach!("rips values: end");
}

#[cfg(feature = "h_rips_values")]
#[no_mangle]
pub extern "C" fn h_rips_values(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, values(f, a))
}
