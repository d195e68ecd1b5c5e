use crate::dense::*;
use crate::fp::F;
use crate::with_field;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::*;
use vs::{check, observe, reach};

/// Up to six entries in each column at the allowed positions.
fn sparse<CF: Invertible + 'static>(f: &F<CF>, n: usize, allowed: impl Fn(usize, usize) -> bool) -> (Dense, Vec<Vec<(CF, usize)>>) {
    let mut d = vec![vec![0; n]; n];
    let mut v = vec![];
    for j in 0..n {
        let rows: Vec<usize> = (0..n).filter(|&i| allowed(i, j)).collect();
        let mut c = vec![];
        for t in 0..(2 + j * 3 % 5).min(rows.len()) {
            let mut i = rows[(j * j + 11 * t) % rows.len()];
            let mut x = 1 + ((j + t) * (j + 3) / 2) as u64 % (f.p - 1);
            if j == n / 2 && t == 0 {
                i = rows[[0, rows.len() / 2, rows.len() - 1][vs::choose(0, 2)]];
            }
            if t == 1 && (j == n / 3 || j == n / 2) {
                x = vs::range(1, f.p - 1);
            }
            add_at(f.p, &mut d[j], i, x);
            c.push((f.of(x), i));
        }
        v.push(c);
    }
    (d, v)
}

/// R = D V for an arbitrary square matrix, order and filtration.
/// arg: n, mode (0 strictly upper triangular, 1 any, 2 lower, 3 two rows only; 10 more: one
/// entry is listed several times), filtration levels, permuted basis.
/// From `LARGE` on: a fixed sparse matrix but for two coefficients and one row.
fn standard<CF: Invertible + 'static, K: Make<CF>>(f: F<CF>, mut a: Arg) {
    let n = a.size();
    let mode = a.take();
    let (mode, messy) = (mode % 10, mode >= 10);
    let levels = a.take() as usize;
    let permuted = a.take() == 1;
    let p = f.p;
    let allowed = |i: usize, j: usize| match mode {
        0 => i < j,
        1 => true,
        2 => i > j,
        _ => i < 2,
    };
    let large = n >= LARGE;
    let (d, mut cols) = if large { sparse(&f, n, allowed) } else { sym(&f, n, n, allowed) };
    if messy {
        let places: Vec<(usize, usize)> = (0..n * n).map(|k| (k / n, k % n)).filter(|&(i, j)| allowed(i, j)).collect();
        mess(&f, &mut cols, &places);
    }
    let key: Vec<usize> = (0..n).map(|i| if large { i * 31 % levels << 59 } else if levels > 1 { vs::idx(0, levels - 1) } else { 0 }).collect();
    let basis: Vec<usize> = if permuted { perm(n) } else { (0..n).collect() };
    let k2 = key.clone();
    let m = K::make(cols).with_filtration(move |r: usize| at(&k2, row_of(r, n))).with_basis(basis.iter().map(|&j| label(j, n)).collect::<Vec<usize>>());
    let v = standard_algo(&m);
    let pos = positions(&key);
    let vd: Dense = (0..n).map(|j| gather_named(&f, n, v.column(label(j, n)))).collect();
    let r = mul(p, &d, &vd);
    // V is unipotent and upper triangular in the order of the basis
    for (s, &j) in basis.iter().enumerate() {
        check!(vd[j][j] == 1, "V has one on the diagonal");
        let mut upper = true;
        for &i in &basis[s + 1..] {
            upper &= vd[j][i] == 0;
        }
        check!(upper, "V adds earlier columns only");
    }
    let lows: Vec<u64> = (0..n).map(|j| low(&r[j], &pos)).collect();
    let mut reduced = true;
    for j in 0..n {
        for k in 0..j {
            reduced &= (lows[j] == 0) | (lows[j] != lows[k]);
        }
    }
    check!(reduced, "the pivots of R = DV are distinct");
    // the R the crate itself gives for D and V
    let rm = product(&m, &v);
    let mut nz = 0;
    for j in 0..n {
        let mut c = rm.build_bhcol(label(j, n));
        match c.pop_pivot() {
            None => check!(lows[j] == 0, "a zero column of R is empty in the product"),
            Some(e) => {
                nz += 1;
                let row = row_of(e.row_index, n);
                check!(lows[j] == pos[row] + 1, "the pivot of the product column is the last row of R");
                check!(f.val(e.coeff) == r[j][row], "the pivot of the product column has R's coefficient");
                check!(e.filtration_value == key[row], "the pivot carries its row's filtration value");
            }
        }
        observe!("low", lows[j]);
    }
    if nz == n {
        reach!("standard: R of full rank");
    }
    if nz + 1 < n {
        reach!("standard: R with two zero columns");
    }
    reach!("standard: end");
}

#[cfg(feature = "h_standard")]
#[no_mangle]
pub extern "C" fn h_standard(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    if Arg(a.0).size() >= LARGE {
        with_field!(p, f, standard::<_, ByName>(f, a))
    } else {
        with_field!(p, f, standard::<_, ByPosition>(f, a))
    }
}
