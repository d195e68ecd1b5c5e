//! Persistent homology of arbitrary filtered chain complexes.
use crate::adaptors::Split;
use crate::dense::*;
use crate::fp::F;
use crate::with_field;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::*;
use std::cmp::Reverse;
use vs::{check, observe, reach};

pub struct Complex<CF> {
    pub n: usize,
    pub dims: Vec<usize>,
    pub key: Vec<usize>,
    pub pos: Vec<usize>,
    pub d: Dense,
    pub cols: Vec<Vec<(CF, usize)>>,
    pub sizes: Vec<usize>,
    /// cells by dimension, then by (key, label)
    pub order: Vec<usize>,
    /// `cols` are `d` after scaling each cell by its unit
    pub unit: Vec<u64>,
}

/// Any complex with the given dimensions of its cells, any filtration with
/// `levels` levels, any boundary that squares to zero and respects the order.
/// If `messy`, one entry is listed several times.
pub fn complex<CF: Invertible + 'static>(f: &F<CF>, dims: Vec<usize>, levels: usize, messy: bool) -> Complex<CF> {
    let n = dims.len();
    let key: Vec<usize> = (0..n).map(|_| if levels > 1 { vs::choose(0, levels - 1) } else { 0 }).collect();
    let pos: Vec<usize> = positions(&key).iter().map(|x| *x as usize).collect();
    let top = *dims.iter().max().unwrap();
    let mut d = vec![vec![0; n]; n];
    let mut cols = vec![vec![]; n];
    // column by column in dimension order, so that D(D(column)) = 0 is assumed early
    for q in 1..=top {
        for j in 0..n {
            if dims[j] != q {
                continue;
            }
            for i in 0..n {
                if dims[i] + 1 == q && pos[i] < pos[j] && vs::coin() {
                    let x = vs::range(1, f.p - 1);
                    d[j][i] = x;
                    cols[j].push((f.of(x), i));
                }
            }
            let bb = mul_vec(f.p, n, &d, &d[j]);
            vs::assume(is_zero(&vec![bb]));
        }
    }
    if messy {
        let places: Vec<(usize, usize)> = (0..n * n).map(|k| (k / n, k % n)).filter(|&(i, j)| dims[i] + 1 == dims[j] && pos[i] < pos[j]).collect();
        mess(f, &mut cols, &places);
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| (dims[i], pos[i]));
    let sizes = (0..=top).map(|q| dims.iter().filter(|&&x| x == q).count()).collect();
    Complex { n, dims, key, pos, d, cols, sizes, order, unit: vec![1; n] }
}

/// The simplices with at most `top + 1` of `n` vertices, filtered by their longest edge;
/// the lengths are fixed but for one. Some cells, of each dimension, are scaled by
/// arbitrary units.
pub fn skeleton<CF: Invertible + 'static>(f: &F<CF>, n: usize, top: usize, levels: usize, messy: bool) -> Complex<CF> {
    let mut cells: Vec<Vec<usize>> = (1u64..1 << n).filter(|m| m.count_ones() as usize <= top + 1).map(|m| (0..n).filter(|v| m >> v & 1 == 1).collect()).collect();
    // dimensions mixed up
    cells.sort_by_key(|s| s.iter().enumerate().map(|(i, v)| (v + 1) * (i + 3)).sum::<usize>() % 11);
    let c = cells.len();
    let any = [0, levels / 2, levels - 1][vs::choose(0, 2)];
    let length = |a: usize, b: usize| if (a, b) == (0, n - 1) { any } else { (a * a + 3 * b) % levels };
    let key: Vec<usize> = cells.iter().map(|s| s.iter().flat_map(|&a| s.iter().filter(move |&&b| a < b).map(move |&b| length(a, b))).max().unwrap_or(0) << 59).collect();
    let dims: Vec<usize> = cells.iter().map(|s| s.len() - 1).collect();
    // with equal keys, faces must still come before their cofaces
    let mut by: Vec<usize> = (0..c).collect();
    by.sort_by_key(|&i| dims[i]);
    let (cells, key, dims): (Vec<_>, Vec<_>, Vec<_>) = (by.iter().map(|&i| cells[i].clone()).collect(), by.iter().map(|&i| key[i]).collect(), by.iter().map(|&i| dims[i]).collect());
    let pos: Vec<usize> = positions(&key).iter().map(|x| *x as usize).collect();
    let scaled: Vec<usize> = (0..=top).map(|q| (0..c).rev().find(|&i| dims[i] == q).unwrap() - (q > 0) as usize).collect();
    let unit: Vec<u64> = (0..c).map(|i| if scaled.contains(&i) { vs::range(1, f.p - 1) } else { 1 }).collect();
    let mut d = vec![vec![0; c]; c];
    let mut cols = vec![vec![]; c];
    for j in 0..c {
        for k in 0..cells[j].len() {
            let mut face = cells[j].clone();
            face.remove(k);
            let Some(i) = cells.iter().position(|s| *s == face) else { continue };
            let x = if k % 2 == 0 { 1 } else { f.p - 1 };
            // D is rescaled to U^-1 D U
            let mut e = f.of(x);
            if scaled.contains(&j) {
                e = e * f.of(unit[j]);
            }
            if scaled.contains(&i) {
                e = e * f.of(unit[i]).mult_inverse();
            }
            d[j][i] = x;
            cols[j].push((e, i));
        }
    }
    if messy {
        mess(f, &mut cols, &[(0, 1), (0, c - 1), (c / 2 - 1, c - 1)].into_iter().filter(|&(i, j)| dims[i] + 1 == dims[j] && pos[i] < pos[j]).collect::<Vec<_>>());
    }
    let mut order: Vec<usize> = (0..c).collect();
    order.sort_by_key(|&i| (dims[i], pos[i]));
    let sizes = (0..=top).map(|q| dims.iter().filter(|&&x| x == q).count()).collect();
    Complex { n: c, dims, key, pos, d, cols, sizes, order, unit }
}

/// The pairing by ranks of the boundary's lower left minors:
/// `pair[j] = Some(i)` if j kills the class born at i.
pub fn pairing<CF: Invertible + 'static>(f: &F<CF>, c: &Complex<CF>) -> Vec<Option<usize>> {
    let rk = |i: usize, j: usize, strict_row: bool, strict_col: bool| -> usize {
        let rows: Vec<usize> = (0..c.n).filter(|&r| c.dims[r] == c.dims[i] && (c.pos[r] > c.pos[i] || (!strict_row && r == i))).collect();
        let cols: Vec<usize> = (0..c.n).filter(|&s| c.dims[s] == c.dims[j] && (c.pos[s] < c.pos[j] || (!strict_col && s == j))).collect();
        if rows.is_empty() || cols.is_empty() {
            return 0;
        }
        rank(f.p, cols.iter().map(|&s| rows.iter().map(|&r| c.d[s][r]).collect()).collect())
    };
    let mut out = vec![None; c.n];
    for j in 0..c.n {
        for i in 0..c.n {
            if c.dims[i] + 1 == c.dims[j] && c.pos[i] < c.pos[j] {
                let v = rk(i, j, false, false) + rk(i, j, true, true) - rk(i, j, true, false) - rk(i, j, false, true);
                if v == 1 {
                    out[j] = Some(i);
                }
            }
        }
    }
    out
}

/// The diagram is exactly the expected pairing.
fn diagram_is(d: &Diagram<usize>, pair: &[Option<usize>]) {
    let n = pair.len();
    for x in d.essential.iter().chain(d.pairings.iter().flat_map(|(b, e)| [b, e])) {
        check!(row_of(*x, n) < n, "a diagram mentions cells only");
    }
    let d = Diagram {
        essential: d.essential.iter().map(|&x| row_of(x, n)).collect(),
        pairings: d.pairings.iter().map(|&(b, e)| (row_of(b, n), row_of(e, n))).collect::<rustc_hash::FxHashSet<_>>(),
    };
    let mut pairs = 0;
    for j in 0..n {
        match pair[j] {
            Some(i) => {
                pairs += 1;
                check!(d.pairings.contains(&(i, j)), "the diagram pairs birth and death");
                check!(!d.essential.contains(&i) & !d.essential.contains(&j), "a paired cell is not essential");
            }
            None => {
                let born = !pair.contains(&Some(j));
                check!(d.essential.contains(&j) == born, "exactly the unpaired cells are essential");
            }
        }
    }
    check!(d.pairings.len() == pairs, "the diagram has no other pairs");
    if pairs == 0 {
        reach!("diagram: nothing is paired");
    }
    if pairs > 1 {
        reach!("diagram: two pairs");
    }
    observe!("pairs", pairs);
}

fn dims_of(mut a: u64) -> Vec<usize> {
    // decimal digits, most significant first, after a leading 1
    let mut v = vec![];
    while a > 1 {
        v.push((a % 10) as usize);
        a /= 10;
    }
    <[usize]>::reverse(&mut v);
    v
}

/// How the crate is asked for the diagram.
fn run<CF: Invertible + std::fmt::Debug + 'static, K: Make<CF>>(f: F<CF>, mut a: Arg) {
    let levels = a.take() as usize;
    let mode = a.take();
    let (mode, messy) = (mode % 10, mode >= 10);
    let dims = dims_of(a.0);
    // 9, vertices, dimension
    let c = if dims[0] == 9 { skeleton(&f, dims[1], dims[2], levels, messy) } else { complex(&f, dims, levels, messy) };
    let pair = pairing(&f, &c);
    let top = c.sizes.len() - 1;
    let key = c.key.clone();
    let n = c.n;
    let named = |order: &[usize]| -> Vec<usize> { order.iter().map(|&i| label(i, n)).collect() };
    match mode {
        // standard reduction, dimension by dimension or in filtration order
        0 | 1 => {
            let mut order = c.order.clone();
            if mode == 1 {
                order = (0..n).collect();
                order.sort_by_key(|&i| c.pos[i]);
            }
            let m = K::make(c.cols.clone()).with_filtration(move |r: usize| key[row_of(r, n)]).with_basis(named(&order));
            let (v, d) = standard_algo_with_diagram(&m, false);
            diagram_is(&d, &pair);
            diagram_is(&read_off_diagram(&m, &v, false), &pair);
            reach!("diagram: standard end");
        }
        // clearing, top dimension first
        2 => {
            let m = K::make(c.cols.clone()).with_filtration(move |r: usize| key[row_of(r, n)]).with_basis(Split::new(named(&c.order), &c.sizes));
            let (v, d) = ClearedReductionMatrix::build_with_diagram(&m, (0..=top).rev());
            diagram_is(&d, &pair);
            check!(basis_of(&v) == named(&c.order), "V has the basis of D");
            let mut vd: Dense = (0..n).map(|j| gather_named(&f, n, v.column(label(j, n)))).collect();
            // back to the cells before they were scaled
            for c_j in &mut vd {
                for i in 0..n {
                    c_j[i] = c_j[i] * c.unit[i] % f.p;
                }
            }
            let r = mul(f.p, &c.d, &vd);
            let pos: Vec<u64> = c.pos.iter().map(|&x| x as u64).collect();
            let mut reduced = true;
            let lows: Vec<u64> = (0..n).map(|j| low(&r[j], &pos)).collect();
            let mut order_ok = true;
            for j in 0..n {
                for k in 0..j {
                    reduced &= (lows[j] == 0) | (lows[j] != lows[k]);
                }
                check!(low(&vd[j], &pos) == pos[j] + 1, "the last entry of a V column is on the diagonal");
                for i in 0..n {
                    order_ok &= (c.dims[i] == c.dims[j]) | (vd[j][i] == 0);
                }
                check!(v.col_is_cycle(label(j, n)) == (lows[j] == 0), "col_is_cycle says whether R's column vanishes");
                match pair[j] {
                    Some(i) => check!(lows[j] == pos[i] + 1, "the pivot of R's column is the paired row"),
                    None => check!(lows[j] == 0, "R's column of a birth vanishes"),
                }
            }
            check!(reduced, "the pivots of R = DV are distinct");
            check!(order_ok, "V stays within a dimension");
            if pair.iter().any(|x| x.is_some()) {
                reach!("diagram: a column is cleared");
            }
            // some of the dimensions only
            let any = |lo: usize, hi: usize| {
                let (_, d) = ClearedReductionMatrix::build_with_diagram(&m, (lo..=hi).rev());
                let within = |j: usize| (lo..=hi).contains(&c.dims[j]);
                let dies: Vec<Option<usize>> = (0..n).map(|j| if within(j) { pair[j] } else { None }).collect();
                let d = Diagram { essential: d.essential.iter().map(|&x| row_of(x, n)).collect(), pairings: d.pairings.iter().map(|&(b, e)| (row_of(b, n), row_of(e, n))).collect::<rustc_hash::FxHashSet<_>>() };
                for j in 0..n {
                    check!(d.essential.contains(&j) == (within(j) && pair[j].is_none() && !dies.contains(&Some(j))), "of some dimensions, exactly the cells unpaired there are essential");
                    check!(dies[j].is_none_or(|i| d.pairings.contains(&(i, j))), "of some dimensions, the deaths there are paired");
                }
                check!(d.pairings.len() == dies.iter().flatten().count(), "of some dimensions, there are no other pairs");
            };
            if top > 0 {
                any(1, top);
                any(0, top - 1);
            }
            reach!("diagram: clearing end");
        }
        // the anti-transpose through the crate's reversal
        3 | 4 => {
            let mut t = vec![vec![]; n];
            for j in 0..n {
                for &(x, i) in &c.cols[j] {
                    t[i].push((x, j));
                }
            }
            let m = K::make(t).with_filtration(move |r: usize| key[row_of(r, n)]).with_basis(Split::new(named(&c.order), &c.sizes));
            let m = MatrixOracle::reverse(m);
            let d = if mode == 3 { standard_algo_with_diagram(&m, false).1 } else { ClearedReductionMatrix::build_with_diagram(&m, 0..=top).1 };
            let d = Diagram {
                essential: d.essential.iter().map(|x| x.0).collect(),
                pairings: d.pairings.iter().map(|(b, e)| (e.0, b.0)).collect(),
            };
            diagram_is(&d, &pair);
            // without the top dimension's own columns
            if mode == 4 && top > 0 {
                let d = ClearedReductionMatrix::build_with_diagram(&m, 0..=top - 1).1;
                let d = Diagram { essential: d.essential.iter().map(|x| row_of(x.0, n)).collect(), pairings: d.pairings.iter().map(|(b, e)| (row_of(e.0, n), row_of(b.0, n))).collect::<rustc_hash::FxHashSet<_>>() };
                for j in 0..n {
                    check!(d.essential.contains(&j) == (c.dims[j] < top && pair[j].is_none() && !pair.contains(&Some(j))), "below the top dimension, exactly the unpaired cells are essential");
                    check!(pair[j].is_none_or(|i| d.pairings.contains(&(i, j))), "below the top dimension, every pair is found");
                }
                check!(d.pairings.len() == pair.iter().flatten().count(), "below the top dimension, there are no other pairs");
            }
            reach!("diagram: cohomology end");
        }
        // the anti-transpose with mirrored labels, dimensions ascending: reverse_order
        _ => {
            let l = |i: usize| n - 1 - i;
            let mut t = vec![vec![]; n];
            for j in 0..n {
                for &(x, i) in &c.cols[j] {
                    t[l(i)].push((x, l(j)));
                }
            }
            // dimensions ascending, within one the last cell first
            let mut order = vec![];
            let s = Split::new(c.order.clone(), &c.sizes);
            for q in 0..=top {
                for &i in s.by[q].iter().rev() {
                    order.push(l(i));
                }
            }
            let m = K::make(t).with_filtration(move |r: usize| Reverse(key[n - 1 - row_of(r, n)])).with_basis(named(&order));
            let (v, d) = standard_algo_with_diagram(&m, true);
            let un = |d: Diagram<usize>| {
                let back = |x: usize| label(l(row_of(x, n)), n);
                Diagram { essential: d.essential.iter().map(|&x| back(x)).collect(), pairings: d.pairings.iter().map(|&(b, e)| (back(e), back(b))).collect() }
            };
            diagram_is(&un(d), &pair);
            diagram_is(&un(read_off_diagram(&m, &v, true)), &pair);
            let r = product(&m, &v);
            let mut z = 0;
            for j in 0..n {
                z += r.build_bhcol(label(j, n)).pop_pivot().is_none() as u64;
            }
            observe!("zero columns", z);
            reach!("diagram: cohomology in ascending order end");
        }
    }
}

/// arg: p, levels, mode (10 more: one entry is listed several times), 1 followed by the dimensions of the cells.
#[cfg(feature = "h_diagram")]
#[no_mangle]
pub extern "C" fn h_diagram(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    if dims_of(a.0 / 10000)[0] == 9 {
        with_field!(p, f, run::<_, ByName>(f, a))
    } else {
        with_field!(p, f, run::<_, ByPosition>(f, a))
    }
}
