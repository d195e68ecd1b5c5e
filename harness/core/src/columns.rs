use crate::dense::*;
use crate::fp::F;
use crate::with_field;
use phlite::columns::*;
use phlite::fields::*;
use std::cmp::Ordering;
use vs::{check, observe, reach};

type Col<CF> = BHCol<usize, usize, CF>;

/// Is `e` the largest non-zero term of `d` by (key, row)?
fn is_pivot<CF: Invertible + 'static>(f: &F<CF>, d: &[u64], keys: &[usize], e: &ColumnEntry<usize, usize, CF>) {
    let r = row_of(e.row_index, d.len());
    check!(r < d.len(), "a pivot's row was added before");
    check!(e.filtration_value == at(keys, r), "a pivot carries its row's filtration value");
    let v = f.val(e.coeff);
    let mut same = false;
    let mut largest = true;
    for i in 0..d.len() {
        same |= (r == i) & (d[i] == v);
        let above = (keys[i] > e.filtration_value) | ((keys[i] == e.filtration_value) & (i > r));
        largest &= !above | (d[i] == 0);
    }
    check!(same & (v != 0), "a pivot has the sum of its row's coefficients");
    check!(largest, "no larger row has a non-zero sum");
}

fn clear(d: &mut [u64], r: usize) {
    for i in 0..d.len() {
        d[i] *= (r != i) as u64;
    }
}

fn empty_below(d: &[u64]) -> bool {
    let mut z = true;
    for x in d {
        z &= *x == 0;
    }
    z
}

fn drain<CF: Invertible + 'static>(f: &F<CF>, d: &mut [u64], keys: &[usize], terms: &[ColumnEntry<usize, usize, CF>]) {
    for e in terms {
        is_pivot(f, d, keys, e);
        clear(d, row_of(e.row_index, d.len()));
        observe!("row", e.row_index);
        observe!("coefficient", f.val(e.coeff));
    }
    check!(empty_below(d), "draining yields every non-zero term");
}

fn entry<CF: Invertible + 'static>(f: &F<CF>, rows: usize, keys: &[usize], d: &mut [u64]) -> ColumnEntry<usize, usize, CF> {
    let r = vs::choose(0, rows - 1);
    let x = vs::range(1, f.p - 1);
    add_at(f.p, d, r, x);
    (f.of(x), label(r, rows), at(keys, r)).into()
}

/// The entries of a long column: fixed but for two coefficients and one row.
fn long<CF: Invertible + 'static>(f: &F<CF>, n: usize, rows: usize, keys: &[usize]) -> (Vec<u64>, Vec<ColumnEntry<usize, usize, CF>>) {
    let (d, v) = large_entries(f, n, rows, 1, true);
    (d, v.into_iter().map(|(x, r)| (x, label(r, rows), at(keys, r)).into()).collect())
}

fn keys(rows: usize, levels: usize) -> Vec<usize> {
    if rows >= LARGE && levels > 1 {
        // large values, all but one fixed
        return (0..rows).map(|i| label(if i == 1 { vs::choose(0, levels - 1) } else { i * 7 % levels }, levels.max(LARGE))).collect();
    }
    (0..rows).map(|_| if levels > 1 { vs::idx(0, levels - 1) } else { 0 }).collect()
}

/// arg: entries, rows, filtration levels, mode (0 to_sorted_vec, 1 drain_sorted,
/// 2 add_tuples then pop until empty, 3 clone_pivot before every pop,
/// 4 the column drained in pieces, the last entry added in between,
/// 5 a copy of the column drained before the column).
fn sorted<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let n = a.size();
    let rows = a.size();
    let levels = a.size();
    let mode = a.take();
    let ks = keys(rows, levels);
    let mut d = vec![0; rows];
    let mut c: Col<CF> = BHCol::default();
    check!(c.peek_pivot().is_none(), "an empty column has no entry to peek at");
    if mode == 2 {
        let mut es = vec![];
        if n >= LARGE {
            let (s, v) = long(&f, n, rows, &ks);
            d = s;
            es.extend(v.into_iter().map(|e| (e.coeff, e.row_index, e.filtration_value)));
        } else {
            for _ in 0..n {
                let e = entry(&f, rows, &ks, &mut d);
                es.push((e.coeff, e.row_index, e.filtration_value));
            }
        }
        c.add_tuples(es);
    } else if mode == 4 {
        let es: Vec<ColumnEntry<usize, usize, CF>> = if n >= LARGE {
            let (s, v) = long(&f, n, rows, &ks);
            d = s;
            v
        } else {
            (0..n).map(|_| entry(&f, rows, &ks, &mut d)).collect()
        };
        let last = es[n - 1];
        let r = row_of(last.row_index, rows);
        // the sum without the last entry
        let x = f.p - f.val(last.coeff);
        add_at(f.p, &mut d, r, x);
        for e in &es[..n - 1] {
            c.add_tuple((e.coeff, e.row_index, e.filtration_value));
        }
        let first: Vec<_> = c.drain_sorted().take(1).collect();
        for e in &first {
            is_pivot(&f, &d, &ks, e);
            clear(&mut d, row_of(e.row_index, rows));
        }
        if first.is_empty() {
            check!(empty_below(&d), "no pivot only if every sum vanishes");
        }
        drop(c.drain_sorted());
        c.add_entry(last);
        add_at(f.p, &mut d, r, f.val(last.coeff));
    } else if n >= LARGE {
        let (s, v) = long(&f, n, rows, &ks);
        d = s;
        let late = v[n / 2..].to_vec();
        c.add_entries(v[..n / 2].iter().copied());
        for e in late {
            c.add_entry(e);
        }
    } else {
        for _ in 0..n {
            let e = entry(&f, rows, &ks, &mut d);
            c.add_entry(e);
        }
    }
    let terms: Vec<ColumnEntry<usize, usize, CF>> = match mode {
        0 => c.to_sorted_vec(),
        1 => {
            let t = c.drain_sorted().collect();
            check!(c.pop_pivot().is_none(), "a drained column is empty");
            t
        }
        4 => {
            let mut t = vec![];
            loop {
                let two: Vec<_> = c.drain_sorted().take(2).collect();
                let n = two.len();
                t.extend(two);
                if n < 2 {
                    break;
                }
            }
            check!(c.pop_pivot().is_none(), "a drained column is empty");
            t
        }
        5 => {
            let k = c.clone();
            let t = k.to_sorted_vec();
            let u = c.to_sorted_vec();
            check!(t.len() == u.len(), "a copy of a column is the same sum");
            for (x, y) in t.iter().zip(&u) {
                check!((x.row_index == y.row_index) & (x.coeff == y.coeff) & (x.filtration_value == y.filtration_value), "a copy of a column is the same sum");
            }
            t
        }
        2 => {
            let mut t = vec![];
            while let Some(e) = c.pop_pivot() {
                t.push(e);
            }
            check!(c.clone_pivot().is_none(), "an exhausted column has no pivot");
            t
        }
        _ => {
            let mut t = vec![];
            while let Some(e) = c.clone_pivot() {
                match c.peek_pivot() {
                    Some(p) => check!((p.row_index == e.row_index) & (p.coeff == e.coeff) & (p.filtration_value == e.filtration_value), "after clone_pivot the pivot is on top"),
                    None => check!(false, "after clone_pivot the pivot is on top"),
                }
                match c.pop_pivot() {
                    Some(p) => check!((p.row_index == e.row_index) & (p.coeff == e.coeff) & (p.filtration_value == e.filtration_value), "pop_pivot returns what clone_pivot showed"),
                    None => check!(false, "pop_pivot returns what clone_pivot showed"),
                }
                t.push(e);
            }
            t
        }
    };
    if terms.is_empty() {
        reach!("columns: everything cancels");
    }
    if terms.len() + 1 < n {
        reach!("columns: some terms merged or cancelled");
    }
    drain(&f, &mut d, &ks, &terms);
    reach!("columns: end");
}

#[cfg(feature = "h_col_sorted")]
#[no_mangle]
pub extern "C" fn h_col_sorted(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, sorted(f, a))
}

/// Arbitrary interleavings of additions, pops and clones.
/// arg: steps, rows, filtration levels, most entries.
fn ops<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let steps = a.size();
    let rows = a.size();
    let levels = a.size();
    let mut room = a.size();
    let ks = keys(rows, levels);
    let mut d = vec![0; rows];
    let mut c: Col<CF> = BHCol::default();
    for s in 0..steps {
        let op = if s == 0 { 2 } else { vs::choose(0, 3) };
        if op > 1 && room < op - 1 {
            return;
        }
        match op {
            2 => {
                room -= 1;
                let e = entry(&f, rows, &ks, &mut d);
                c.add_entry(e);
            }
            3 => {
                room -= 2;
                let e = entry(&f, rows, &ks, &mut d);
                let e2 = entry(&f, rows, &ks, &mut d);
                c.add_entries(vec![e, e2]);
            }
            0 => match c.pop_pivot() {
                None => check!(empty_below(&d), "no pivot only if every sum vanishes"),
                Some(e) => {
                    is_pivot(&f, &d, &ks, &e);
                    clear(&mut d, row_of(e.row_index, rows));
                }
            },
            _ => match c.clone_pivot() {
                None => check!(empty_below(&d), "no pivot only if every sum vanishes"),
                Some(e) => is_pivot(&f, &d, &ks, &e),
            },
        }
    }
    let terms = c.to_sorted_vec();
    drain(&f, &mut d, &ks, &terms);
    reach!("columns: ops end");
}

#[cfg(feature = "h_col_ops")]
#[no_mangle]
pub extern "C" fn h_col_ops(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, ops(f, a))
}

/// Entries compare by filtration value and then row; scaling keeps the row.
fn entries<CF: Invertible + 'static>(f: F<CF>) {
    let e = |_: usize| {
        let (r, k, x) = (vs::idx(0, usize::MAX), vs::idx(0, usize::MAX), vs::range(1, f.p - 1));
        let e: ColumnEntry<usize, usize, CF> = (f.of(x), r, k).into();
        (e, r, k, x)
    };
    let (a, ra, ka, xa) = e(0);
    let (b, rb, kb, _) = e(1);
    let (lt, eq) = ((ka < kb) | ((ka == kb) & (ra < rb)), (ka == kb) & (ra == rb));
    let o = a.cmp(&b);
    check!((o == Ordering::Less) == lt, "entries compare by filtration value and then by row");
    check!((o == Ordering::Equal) == eq, "entries compare by filtration value and then by row");
    check!((a < b) == lt, "the partial order of entries is their order");
    if ka == kb {
        check!((a == b) == (ra == rb), "entries are equal exactly if their rows are");
    }
    let y = vs::range(1, f.p - 1);
    let m = a * f.of(y);
    check!((m.row_index == ra) & (m.filtration_value == ka) & (f.val(m.coeff) == xa * y % f.p), "scaling an entry scales its coefficient only");
    let t: (CF, usize, usize) = m.into();
    check!((t.1 == ra) & (t.2 == ka) & (f.val(t.0) == xa * y % f.p), "an entry converts to its parts");
    reach!("columns: entries end");
}

#[cfg(feature = "h_col_entries")]
#[no_mangle]
pub extern "C" fn h_col_entries(p: u64) {
    with_field!(p, f, entries(f))
}
