//! Adaptors: what they must leave alone, and what they change.
use crate::combine::{columns_are, drained_is};
use crate::dense::*;
use crate::fp::F;
use crate::with_field;
use phlite::fields::*;
use phlite::matrices::adaptors::*;
use phlite::matrices::implementors::*;
use phlite::matrices::*;
use std::cell::Cell;
use std::cmp::Reverse;
use vs::{check, observe, reach};

/// A basis cut into dimensions.
#[derive(Clone)]
pub struct Split {
    pub all: Vec<usize>,
    pub by: Vec<Vec<usize>>,
}
impl ColBasis for Split {
    type ElemT = usize;
    fn element(&self, i: usize) -> usize {
        self.all[i]
    }
    fn size(&self) -> usize {
        self.all.len()
    }
}
impl SplitByDimension for Split {
    type SubBasisT = Vec<usize>;
    fn in_dimension(&self, d: usize) -> &Vec<usize> {
        &self.by[d]
    }
}
impl Split {
    /// `order` cut after `sizes[0]`, `sizes[1]`, ... elements.
    pub fn new(order: Vec<usize>, sizes: &[usize]) -> Split {
        let mut by = vec![];
        let mut at = 0;
        for &s in sizes {
            by.push(order[at..at + s].to_vec());
            at += s;
        }
        Split { all: order, by }
    }
}

fn same_vectors<M>(f: &F<M::CoefficientField>, m: &M, d: &Dense, rows: usize)
where
    M: MatrixOracle<RowT = usize, ColT = usize>,
    M::CoefficientField: Invertible + 'static,
{
    for c in 0..d.len() {
        check!(vec_eq(&gather(f, rows, m.column(c)), &d[c]), "a column is the expected vector");
    }
}

/// Where to cut a basis in two.
fn cut(cols: usize) -> usize {
    if cols >= LARGE {
        return [0, cols / 3, cols][vs::choose(0, 2)];
    }
    vs::choose(0, cols)
}

/// arg: rows, columns, entries per column.
fn adapt<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, cols, l) = (a.size(), a.size(), a.size());
    let (d, v) = sym_lists(&f, rows, cols, l);
    let key = sym_keys(rows);
    let k = |r: usize| at(&key, r);
    let m = mat(v);
    let standard: Vec<usize> = (0..cols).collect();
    // filtrations
    let t = (&m).with_trivial_filtration();
    same_vectors(&f, &t, &d, rows);
    check!(basis_of(&t) == standard, "a trivial filtration keeps the basis");
    for c in 0..cols {
        let mut w = vec![0; rows];
        for e in t.column_with_filtration(c) {
            add_at(f.p, &mut w, e.row_index, f.val(e.coeff));
        }
        check!(vec_eq(&w, &d[c]), "a trivial filtration keeps the columns");
    }
    let w = (&m).with_filtration(k);
    columns_are(&f, &w, &d, rows, k);
    check!(basis_of(&w) == standard, "a filtration keeps the basis");
    for r in 0..rows {
        check!(w.filtration_value(r) == key[r], "the filtration is the given function");
    }
    // bases
    let order = perm(cols);
    let first = cut(cols);
    let b = (&w).with_basis(Split::new(order.clone(), &[first, cols - first]));
    columns_are(&f, &b, &d, rows, k);
    check!(basis_of(&b) == order, "the basis is the given one");
    for r in 0..rows {
        check!(b.filtration_value(r) == key[r], "a basis keeps the filtration");
    }
    let nb = MatrixWithBasis::new(&w, order.clone());
    columns_are(&f, &nb, &d, rows, k);
    check!(basis_of(&nb) == order, "the basis is the given one");
    // a basis of some of the columns, the others can still be read
    let some = (&w).with_basis(order[..first].to_vec());
    columns_are(&f, &some, &d, rows, k);
    check!(basis_of(&some) == order[..first], "the basis is the given one");
    let moved: Dense = order[..first].iter().map(|&c| d[c].clone()).collect();
    columns_are(&f, &(&some).using_col_basis_index(), &moved, rows, k);
    // on top of a basis
    let tb = (&b).with_trivial_filtration();
    same_vectors(&f, &tb, &d, rows);
    check!(basis_of(&tb) == order, "a trivial filtration keeps the basis");
    let wb = (&b).with_filtration(|r: usize| at(&key, r) + 1);
    columns_are(&f, &wb, &d, rows, |r| at(&key, r) + 1);
    check!(basis_of(&wb) == order, "a filtration keeps the basis");
    columns_are(&f, &wb.discard_filtration(), &d, rows, k);
    let ix = (&b).using_col_basis_index();
    let moved: Dense = order.iter().map(|&c| d[c].clone()).collect();
    columns_are(&f, &ix, &moved, rows, k);
    for r in 0..rows {
        check!(ix.filtration_value(r) == key[r], "indexing by position keeps the filtration");
    }
    for dim in 0..2 {
        let part = if dim == 0 { order[..first].to_vec() } else { order[first..].to_vec() };
        let s = (&b).sub_matrix_in_dimension(dim);
        columns_are(&f, &s, &d, rows, k);
        check!(basis_of(&s) == part, "the sub-matrix has that dimension's basis");
        for r in 0..rows {
            check!(s.filtration_value(r) == key[r], "a sub-matrix keeps the filtration");
        }
        let six = s.using_col_basis_index();
        let moved: Dense = part.iter().map(|&c| d[c].clone()).collect();
        columns_are(&f, &six, &moved, rows, k);
    }
    let cached = (&b).cache_cols();
    columns_are(&f, &cached, &d, rows, k);
    check!(basis_of(&cached) == order, "caching keeps the basis");
    let cons = (&b).consolidate();
    columns_are(&f, &cons, &d, rows, k);
    check!(basis_of(&cons) == order, "consolidating keeps the basis");
    observe!("first", first);
    reach!("adaptors: end");
}

#[cfg(feature = "h_adaptors")]
#[no_mangle]
pub extern "C" fn h_adaptors(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, adapt(f, a))
}

fn reversed_is<M, K: Fn(usize) -> usize>(f: &F<M::CoefficientField>, m: &M, d: &Dense, rows: usize, k: K)
where
    M: MatrixOracle<RowT = Reverse<usize>, ColT = Reverse<usize>> + HasRowFiltration<FiltrationT = Reverse<usize>>,
    M::CoefficientField: Invertible + 'static,
{
    for c in 0..d.len() {
        let g = gather(f, rows, m.column(Reverse(c)).map(|(x, r)| (x, r.0)));
        check!(vec_eq(&g, &d[c]), "a reversed column is the same vector");
        let mut w = vec![0; rows];
        for e in m.column_with_filtration(Reverse(c)) {
            check!(e.filtration_value.0 == k(e.row_index.0), "a reversed entry carries its row's filtration value");
            add_at(f.p, &mut w, e.row_index.0, f.val(e.coeff));
        }
        check!(vec_eq(&w, &d[c]), "a reversed column with filtration is the same vector");
    }
    for r in 0..rows {
        check!(m.filtration_value(Reverse(r)).0 == k(r), "reversing keeps the filtration values");
    }
}

fn rev(v: &[usize]) -> Vec<Reverse<usize>> {
    v.iter().rev().map(|&x| Reverse(x)).collect()
}

/// arg: rows, columns, entries per column.
fn reverse<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, cols, l) = (a.size(), a.size(), a.size());
    let (d, v) = sym_lists(&f, rows, cols, l);
    let key = sym_keys(rows);
    let k = |r: usize| at(&key, r);
    let order = perm(cols);
    let first = cut(cols);
    let split = Split::new(order.clone(), &[first, cols - first]);
    let m = mat(v).with_filtration(k).with_basis(split.clone());
    let parts = [order[..first].to_vec(), order[first..].to_vec()];
    let r = MatrixOracle::reverse(&m);
    reversed_is(&f, &r, &d, rows, k);
    check!(basis_of(&r) == rev(&order), "reversing reverses the basis");
    for dim in 0..2 {
        let s = (&r).sub_matrix_in_dimension(dim);
        reversed_is(&f, &s, &d, rows, k);
        check!(basis_of(&s) == rev(&parts[dim]), "the reversed sub-matrix has the reversed sub-basis");
    }
    let ix = (&r).using_col_basis_index();
    for (i, &c) in order.iter().rev().enumerate() {
        check!(vec_eq(&gather(&f, rows, ix.column(i).map(|(x, r)| (x, r.0))), &d[c]), "indexing a reversed matrix counts from the end");
    }
    // the pivot of a reversed column is the first row of the column
    for c in 0..cols {
        let p = r.build_bhcol(Reverse(c)).pop_pivot();
        match p {
            None => check!(is_zero(&vec![d[c].clone()]), "a reversed column without pivot is zero"),
            Some(e) => {
                let (kr, rr) = (e.filtration_value.0, e.row_index.0);
                let mut least = true;
                for i in 0..rows {
                    let below = (key[i] < kr) | ((key[i] == kr) & (i < rr));
                    least &= !below | (d[c][i] == 0);
                }
                check!(least & (d[c][rr] == f.val(e.coeff)) & (d[c][rr] != 0), "the pivot of a reversed column is the least row of the column");
            }
        }
    }
    // a basis of some of the columns
    let some = MatrixOracle::reverse((&m).with_basis(order[..first].to_vec()));
    reversed_is(&f, &some, &d, rows, k);
    check!(basis_of(&some) == rev(&order[..first]), "reversing reverses the basis");
    // and back
    columns_are(&f, &r.unreverse(), &d, rows, k);
    let u = MatrixOracle::unreverse(MatrixOracle::reverse(&m));
    columns_are(&f, &u, &d, rows, k);
    check!(basis_of(&u) == order, "unreversing restores the basis");
    for row in 0..rows {
        check!(u.filtration_value(row) == key[row], "unreversing restores the filtration");
    }
    for c in 0..cols {
        drained_is(&f, &u, c, &d[c], k);
    }
    for dim in 0..2 {
        let s = (&u).sub_matrix_in_dimension(dim);
        columns_are(&f, &s, &d, rows, k);
        check!(basis_of(&s) == parts[dim], "the unreversed sub-matrix has the sub-basis");
    }
    // bases on their own
    let rb = ColBasis::reverse(&split);
    let els: Vec<Reverse<usize>> = (0..rb.size()).map(|i| rb.element(i)).collect();
    check!(els == rev(&order), "a reversed basis lists the elements backwards");
    let back = rb.unreverse();
    check!((0..back.size()).map(|i| back.element(i)).collect::<Vec<_>>() == order, "unreversing a basis restores it");
    let ub = UnreverseBasis(ReverseBasis(&split));
    check!((0..ub.size()).map(|i| ub.element(i)).collect::<Vec<_>>() == order, "unreversing a basis restores it");
    for dim in 0..2 {
        let s = ReverseBasis(&split);
        let s = s.in_dimension(dim);
        check!((0..s.size()).map(|i| s.element(i)).collect::<Vec<_>>() == rev(&parts[dim]), "a reversed basis splits into reversed parts");
        let s = ub.in_dimension(dim);
        check!((0..s.size()).map(|i| s.element(i)).collect::<Vec<_>>() == parts[dim], "an unreversed basis splits into its parts");
    }
    observe!("first", first);
    reach!("reverse: end");
}

#[cfg(feature = "h_reverse")]
#[no_mangle]
pub extern "C" fn h_reverse(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, reverse(f, a))
}

/// Counts how often each column is computed.
struct Counting<CF> {
    cols: Vec<Vec<(CF, usize)>>,
    calls: Vec<Cell<usize>>,
}
impl<CF: Invertible> MatrixOracle for Counting<CF> {
    type CoefficientField = CF;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, col: usize) -> impl Iterator<Item = (CF, usize)> {
        self.calls[col].set(self.calls[col].get() + 1);
        self.cols[col].iter().cloned()
    }
}

fn same_list<CF: Invertible + 'static>(f: &F<CF>, a: &[(CF, usize)], b: &[(CF, usize)]) -> bool {
    let mut s = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        s &= (a[i].1 == b[i].1) & (f.val(a[i].0) == f.val(b[i].0));
    }
    s
}

/// Any sequence of column requests, iterators held open or not; arg: rows,
/// columns, entries per column, requests.
fn cache<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, cols, l, req) = (a.size(), a.size(), a.size(), a.size());
    let (_, v) = sym_lists(&f, rows, cols, l);
    let m = Counting { cols: v.clone(), calls: (0..cols).map(|_| Cell::new(0)).collect() };
    let key = |r: usize| 3 * r + 1;
    let names: Vec<usize> = (0..cols).rev().collect();
    let c = (&m).with_filtration(key).with_basis(Split::new(names.clone(), &[cols])).cache_cols();
    check!(basis_of(&c) == names, "caching keeps the basis");
    for r in 0..rows {
        check!(c.filtration_value(r) == key(r), "caching keeps the filtration");
    }
    let mut open: Vec<(usize, Box<dyn Iterator<Item = (CF, usize)>>)> = vec![];
    let mut asked = vec![false; cols];
    for t in 0..req {
        let large = req >= LARGE;
        // many requests are fixed but for the last
        let j = if !large { vs::choose(0, cols - 1) } else if t + 1 < req { t * 7 % cols } else { [0, cols / 2, cols - 1][vs::choose(0, 2)] };
        asked[j] = true;
        let it: Box<dyn Iterator<Item = (CF, usize)>> = if if large { t % 2 == 0 } else { vs::coin() } {
            Box::new(c.column(j))
        } else {
            Box::new(c.column_with_filtration(j).map(move |e| {
                check!(e.filtration_value == key(e.row_index), "an entry of a cached column carries its row's filtration value");
                (e.coeff, e.row_index)
            }))
        };
        let keep = if large { t % 4 } else { vs::choose(0, 2) };
        if keep == 0 {
            open.push((j, it));
        } else if keep == 1 {
            // only begun, or not even that
            let k = if large { t / 4 % 3 } else { vs::choose(0, l.min(1)) };
            check!(same_list(&f, &it.take(k).collect::<Vec<_>>(), &v[j][..k.min(v[j].len())]), "a cached column begins with the same entries");
        } else {
            check!(same_list(&f, &it.collect::<Vec<_>>(), &v[j]), "a cached column lists the same entries");
        }
    }
    if open.len() > 1 {
        reach!("cache: two iterators open");
    }
    for (j, it) in open {
        check!(same_list(&f, &it.collect::<Vec<_>>(), &v[j]), "a column held open lists the same entries");
    }
    for j in 0..cols {
        check!(m.calls[j].get() == asked[j] as usize, "a cached column is computed once");
    }
    reach!("cache: end");
}

#[cfg(feature = "h_cache")]
#[no_mangle]
pub extern "C" fn h_cache(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, cache(f, a))
}

/// arg: rows, entries.
fn consolidated<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, l) = (a.size(), a.size());
    let (d, v) = sym_entries(&f, l, rows);
    let key = sym_keys(rows);
    let k = |r: usize| at(&key, r);
    let m = mat(vec![v]).with_filtration(k);
    let c = (&m).consolidate();
    let out: Vec<(CF, usize)> = c.column(0).collect();
    let mut g = vec![0; rows];
    let mut last = usize::MAX;
    for &(x, r) in &out {
        check!(r < last, "a consolidated column has each row once, in decreasing order");
        last = r;
        check!((f.val(x) >= 1) & (f.val(x) < f.p), "a consolidated entry is not zero");
        add_at(f.p, &mut g, r, f.val(x));
        observe!("row", r);
    }
    check!(vec_eq(&g, &d), "a consolidated column is the same vector");
    let with: Vec<(CF, usize)> = c
        .column_with_filtration(0)
        .map(|e| {
            check!(e.filtration_value == k(e.row_index), "an entry of a consolidated column carries its row's filtration value");
            (e.coeff, e.row_index)
        })
        .collect();
    check!(with.len() == out.len(), "a consolidated column is consolidated when read with its values");
    for &(_, r) in &with {
        check!(out.iter().filter(|e| e.1 == r).count() == 1, "a consolidated column has the same rows when read with its values");
        check!(with.iter().filter(|e| e.1 == r).count() == 1, "a consolidated column has each row once when read with its values");
    }
    check!(basis_of(&c) == vec![0], "consolidating keeps the basis");
    if out.len() + 1 < l {
        reach!("consolidate: entries merged");
    }
    columns_are(&f, &c, &vec![d.clone()], rows, k);
    for r in 0..rows {
        check!(c.filtration_value(r) == key[r], "consolidating keeps the filtration");
    }
    check!(c.eq_on_col(&(&m), 0), "a consolidated column equals the original");
    reach!("consolidate: end");
}

#[cfg(feature = "h_consolidate")]
#[no_mangle]
pub extern "C" fn h_consolidate(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, consolidated(f, a))
}

/// Constructors, and equality of columns; arg: rows, columns, entries.
fn construct<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, cols, l) = (a.size(), a.size(), a.size());
    let (d, v) = sym_lists(&f, rows, cols, l);
    let standard: Vec<usize> = (0..cols).collect();
    for (i, m) in [VecVecMatrix::new(v.clone()), VecVecMatrix::from(v.clone()), VecVecMatrix::from(&v), VecVecMatrix::from(std::borrow::Cow::Owned(v.clone())), VecVecMatrix::from(std::borrow::Cow::Borrowed(&v))].iter().enumerate() {
        for c in 0..cols {
            check!(same_list(&f, &m.column(c).collect::<Vec<_>>(), &v[c]), "a matrix lists the entries it was built from");
        }
        if i == 0 {
            same_vectors(&f, m, &d, rows);
        }
        check!(basis_of(m) == standard, "a matrix of n columns has the standard basis");
    }
    let ones = VecVecMatrix::<CF, usize>::new_all_one(v.iter().map(|c| c.iter().map(|e| e.1)));
    for c in 0..cols {
        let want: Vec<(CF, usize)> = v[c].iter().map(|e| (CF::one(), e.1)).collect();
        check!(same_list(&f, &ones.column(c).collect::<Vec<_>>(), &want), "new_all_one gives every row coefficient one");
    }
    let mut map = rustc_hash::FxHashMap::default();
    for c in 0..cols {
        map.insert(3 * c + 1, v[c].clone());
    }
    {
        let m = MapVecMatrix::from(&map);
        for c in 0..cols {
            check!(same_list(&f, &m.column(3 * c + 1).collect::<Vec<_>>(), &v[c]), "a map matrix lists the entries it was built from");
        }
    }
    let m = MapVecMatrix::from(map);
    for c in 0..cols {
        check!(same_list(&f, &m.column(3 * c + 1).collect::<Vec<_>>(), &v[c]), "a map matrix lists the entries it was built from");
    }
    reach!("construct: end");
}

#[cfg(feature = "h_construct")]
#[no_mangle]
pub extern "C" fn h_construct(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, construct(f, a))
}

/// eq_on_col is equality of the vectors; arg: rows, entries left, entries right.
fn equal<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (rows, l, r) = (a.size(), a.size(), a.size());
    let (dl, vl) = sym_entries(&f, l, rows);
    let (dr, vr) = if r >= LARGE {
        // the same entries backwards and one more
        let (mut d, mut v) = (dl.clone(), vl.clone());
        <[(CF, usize)]>::reverse(&mut v);
        let (i, x) = (vs::choose(0, 2), vs::range(1, f.p - 1));
        let row = [0, rows / 2, rows - 1][i];
        for at in [r / 2, r] {
            add_at(f.p, &mut d, row, x);
            v.insert(at, (f.of(x), row));
        }
        (d, v)
    } else {
        sym_entries(&f, r, rows)
    };
    let (ml, mr) = (mat(vec![vl]), mat(vec![vr]));
    let same = vec_eq(&dl, &dr);
    let e = ml.eq_on_col(&mr, 0);
    check!(e == same, "columns are equal exactly if they are the same vector");
    check!(mr.eq_on_col(&ml, 0) == e, "equality of columns is symmetric");
    check!(ml.eq_on_col(&ml, 0), "a column equals itself");
    if e {
        reach!("eq_on_col: equal");
    } else {
        reach!("eq_on_col: different");
    }
}

#[cfg(feature = "h_eq_on_col")]
#[no_mangle]
pub extern "C" fn h_eq_on_col(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, equal(f, a))
}

/// Lookups invert bases; arg: size.
#[cfg(feature = "h_lookup")]
#[no_mangle]
pub extern "C" fn h_lookup(arg: u64) {
    let n = Arg(arg).size();
    let order = perm(n);
    let els: Vec<usize> = order.iter().map(|x| 7 * x + 2).collect();
    let lk = els.construct_reverse_lookup();
    check!(lk.len() == n, "a lookup has one entry per basis element");
    for (i, e) in els.iter().enumerate() {
        check!(els.element(i) == *e, "a vector basis lists its elements");
        check!(lk.get(e) == Some(&i), "the lookup gives each element its position");
        check!(!lk.contains_key(&(e + 1)), "the lookup has no other elements");
    }
    check!(els.size() == n, "a vector basis has the size of the vector");
    let r = ColBasis::reverse(&els);
    let lr = r.construct_reverse_lookup();
    for i in 0..n {
        check!(lr.get(&Reverse(els[i])) == Some(&(n - 1 - i)), "a reversed lookup counts from the end");
    }
    let s = StandardBasis::new(n);
    check!(ColBasis::size(&s) == n, "a standard basis has the given size");
    for i in 0..n {
        check!(ColBasis::element(&s, i) == i, "a standard basis lists 0, 1, 2, ...");
    }
    let ls = ColBasis::construct_reverse_lookup(&s);
    for i in 0..n {
        check!(ls.get(&i) == Some(&i), "a standard lookup is the identity");
    }
    observe!("first", if n > 0 { els[0] } else { 0 });
    reach!("lookup: end");
}
