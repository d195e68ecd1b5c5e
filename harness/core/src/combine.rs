//! Products, sums and smart-pointer matrices against dense linear algebra.
use crate::dense::*;
use crate::fp::F;
use crate::with_field;
use phlite::columns::ColumnEntry;
use phlite::fields::*;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::*;
use std::rc::Rc;
use std::sync::Arc;
use vs::{check, observe, reach};

/// `m`'s columns `0..cols` are those of `d` and, row by row, carry `key`.
pub fn columns_are<M, K: Fn(usize) -> usize>(f: &F<M::CoefficientField>, m: &M, d: &Dense, rows: usize, key: K)
where
    M: MatrixOracle<RowT = usize, ColT = usize> + HasRowFiltration<FiltrationT = usize>,
    M::CoefficientField: Invertible + 'static,
{
    for c in 0..d.len() {
        let g = gather(f, rows, m.column(c));
        check!(vec_eq(&g, &d[c]), "a column is the expected vector");
        let mut w = vec![0; rows];
        for e in m.column_with_filtration(c) {
            check!(e.row_index < rows, "a column mentions only rows of the matrix");
            check!(e.filtration_value == key(e.row_index), "an entry carries its row's filtration value");
            add_at(f.p, &mut w, e.row_index, f.val(e.coeff));
        }
        check!(vec_eq(&w, &d[c]), "column_with_filtration is the same vector");
    }
}

/// The drained heap of a column: its non-zero entries, largest first.
pub fn drained_is<M, K: Fn(usize) -> usize>(f: &F<M::CoefficientField>, m: &M, c: usize, d: &[u64], key: K)
where
    M: MatrixOracle<RowT = usize, ColT = usize> + HasRowFiltration<FiltrationT = usize>,
    M::CoefficientField: Invertible + 'static,
{
    let v = m.build_bhcol(c).to_sorted_vec();
    let mut seen = vec![0; d.len()];
    let mut last: Option<(usize, usize)> = None;
    for e in &v {
        let k = key(e.row_index);
        check!(e.filtration_value == k, "an entry carries its row's filtration value");
        if let Some((lk, lr)) = last {
            check!((k < lk) | ((k == lk) & (e.row_index < lr)), "the entries of a heap column come in decreasing order");
        }
        last = Some((k, e.row_index));
        check!(e.row_index < d.len(), "a column mentions only rows of the matrix");
        add_at(f.p, &mut seen, e.row_index, f.val(e.coeff));
    }
    check!(vec_eq(&seen, d), "a heap column is the expected vector");
}

/// arg: rows, inner size, right columns, entries per left column, entries per right column.
fn prod<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, inner, cols) = (a.size(), a.size(), a.size());
    let (ll, lr) = (a.size(), a.size());
    let (dl, vl) = sym_lists(&f, rows, inner, ll);
    let (dr, vr) = sym_lists(&f, inner, cols, lr);
    let key: Vec<usize> = sym_keys(rows);
    let k2 = key.clone();
    let left = mat(vl).with_filtration(move |r: usize| at(&k2, r));
    let right = mat(vr);
    let want: Dense = dr.iter().map(|b| mul_vec(f.p, rows, &dl, b)).collect();
    let pr = product(&left, &right);
    columns_are(&f, &pr, &want, rows, |r| at(&key, r));
    for r in 0..rows {
        check!(pr.filtration_value(r) == key[r], "a product has the left factor's filtration");
    }
    check!(basis_of(&pr) == (0..cols).collect::<Vec<_>>(), "a product has the right factor's basis");
    for c in 0..cols {
        drained_is(&f, &pr, c, &want[c], |r| at(&key, r));
    }
    let by_macro = phlite::matrix_col_product!(left, right.column(0));
    check!(vec_eq(&gather(&f, rows, by_macro), &want[0]), "matrix_col_product is the product's column");
    observe!("entry", want[0][0]);
    reach!("combine: product end");
}

#[cfg(feature = "h_product")]
#[no_mangle]
pub extern "C" fn h_product(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, prod(f, a))
}

/// (AB)C = A(BC) = the dense product; arg: size, entries per column.
fn assoc<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (n, l) = (a.size(), a.size());
    let (da, va) = sym_lists(&f, n, n, l);
    let (db, vb) = sym_lists(&f, n, n, l);
    let (dc, vc) = sym_lists(&f, n, 1, l);
    let (ma, mb, mc) = (mat(va).with_trivial_filtration(), mat(vb), mat(vc));
    let want = mul_vec(f.p, n, &da, &mul_vec(f.p, n, &db, &dc[0]));
    let left = product(product(&ma, &mb), &mc);
    let right = product(&ma, product(&mb, &mc));
    check!(vec_eq(&gather(&f, n, left.column(0)), &want), "(AB)C is the matrix product");
    check!(vec_eq(&gather(&f, n, right.column(0)), &want), "A(BC) is the matrix product");
    let mut w = vec![0; n];
    for ColumnEntry { row_index, coeff, .. } in left.column_with_filtration(0) {
        add_at(f.p, &mut w, row_index, f.val(coeff));
    }
    check!(vec_eq(&w, &want), "(AB)C with filtration is the matrix product");
    check!(left.eq_on_col(&right, 0), "(AB)C equals A(BC) as matrices");
    reach!("combine: associativity end");
}

#[cfg(feature = "h_product_assoc")]
#[no_mangle]
pub extern "C" fn h_product_assoc(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, assoc(f, a))
}

/// arg: rows, columns, entries per column.
fn sums<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, cols, l) = (a.size(), a.size(), a.size());
    let (dl, vl) = sym_lists(&f, rows, cols, l);
    let (dr, vr) = sym_lists(&f, rows, cols, l);
    let (ml, mr) = (mat(vl), mat(vr));
    let want: Dense = (0..cols).map(|c| (0..rows).map(|i| (dl[c][i] + dr[c][i]) % f.p).collect()).collect();
    let key: Vec<usize> = sym_keys(rows);
    let s = sum(&ml, &mr).with_filtration(|r: usize| at(&key, r));
    columns_are(&f, &s, &want, rows, |r| at(&key, r));
    for c in 0..cols {
        drained_is(&f, &s, c, &want[c], |r| at(&key, r));
    }
    check!(sum(&ml, &mr).eq_on_col(&sum(&mr, &ml), 0), "the sum does not depend on the order of its terms");
    observe!("entry", want[0][0]);
    reach!("combine: sum end");
}

#[cfg(feature = "h_sum")]
#[no_mangle]
pub extern "C" fn h_sum(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, sums(f, a))
}

/// References and smart pointers to a matrix are that matrix; arg: rows, columns, entries.
fn wrappers<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, cols, l) = (a.size(), a.size(), a.size());
    let (d, v) = sym_lists(&f, rows, cols, l);
    let key: Vec<usize> = sym_keys(rows);
    let m = mat(v);
    let ref_m = (&m).with_filtration(|r: usize| at(&key, r));
    columns_are(&f, &ref_m, &d, rows, |r| at(&key, r));
    columns_are(&f, &(&ref_m), &d, rows, |r| at(&key, r));
    check!(basis_of(&&ref_m) == (0..cols).collect::<Vec<_>>(), "a reference has the matrix's basis");
    for r in 0..rows {
        check!((&ref_m).filtration_value(r) == key[r], "a reference has the matrix's filtration");
    }
    for c in 0..cols {
        drained_is(&f, &(&ref_m), c, &d[c], |r| at(&key, r));
    }
    let m = Box::new(m);
    for c in 0..cols {
        check!(vec_eq(&column_of(&f, rows, &m, c), &d[c]), "a boxed matrix is that matrix");
    }
    let m = Rc::new(*m);
    for c in 0..cols {
        check!(vec_eq(&column_of(&f, rows, &m, c), &d[c]), "a reference-counted matrix is that matrix");
        check!(vec_eq(&column_of(&f, rows, &m.clone(), c), &d[c]), "a reference-counted matrix is that matrix");
    }
    let m = Arc::new(m);
    for c in 0..cols {
        check!(vec_eq(&column_of(&f, rows, &m, c), &d[c]), "an atomically counted matrix is that matrix");
    }
    reach!("combine: wrappers end");
}

#[cfg(feature = "h_wrappers")]
#[no_mangle]
pub extern "C" fn h_wrappers(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, wrappers(f, a))
}
