//! Persistent homology of a Rips filtration, from distances to bars.
use crate::indices::*;
use hcore::dense::{rank, Arg};
use hcore::fp::F;
use hcore::with_field;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use vs::{check, observe, reach};

/// dimension, birth, death
pub type Bar = (usize, NotNan<f64>, Option<NotNan<f64>>);

/// The bars of the Rips filtration with simplices of dimension at most `top`,
/// by ranks of lower left minors of the boundary matrix.
pub fn bars(p: u64, d: &Dist, top: usize) -> Vec<Bar> {
    let n = d.len();
    let mut out = vec![];
    // simplices of every dimension in an order of ascending diameter
    let mut cells: Vec<Vec<(NotNan<f64>, Vec<usize>)>> = vec![];
    for q in 0..=top {
        let mut c: Vec<(NotNan<f64>, Vec<usize>)> = subsets(n, q + 1).into_iter().map(|s| (diameter(d, &s), s)).collect();
        // insertion sort; ties in the order of the subsets
        for i in 1..c.len() {
            let mut j = i;
            while j > 0 && c[j].0 < c[j - 1].0 {
                c.swap(j, j - 1);
                j -= 1;
            }
        }
        cells.push(c);
    }
    let mut killed: Vec<Vec<bool>> = cells.iter().map(|c| vec![false; c.len()]).collect();
    let mut kills = killed.clone();
    for q in 1..=top {
        let (lo, hi) = (&cells[q - 1], &cells[q]);
        let m: Vec<Vec<u64>> = hi
            .iter()
            .map(|(_, s)| {
                lo.iter()
                    .map(|(_, t)| {
                        let missing: Vec<usize> = (0..s.len()).filter(|&i| !t.contains(&s[i])).collect();
                        if missing.len() == 1 {
                            if missing[0] % 2 == 0 {
                                1
                            } else {
                                p - 1
                            }
                        } else {
                            0
                        }
                    })
                    .collect()
            })
            .collect();
        // r[i][j]: rank of rows i.. and columns ..j
        let r: Vec<Vec<usize>> = (0..=lo.len()).map(|i| (0..=hi.len()).map(|j| if i == lo.len() || j == 0 { 0 } else { rank(p, (0..j).map(|c| m[c][i..].to_vec()).collect()) }).collect()).collect();
        for j in 0..hi.len() {
            for i in 0..lo.len() {
                if r[i][j + 1] + r[i + 1][j] == r[i + 1][j + 1] + r[i][j] + 1 {
                    killed[q - 1][i] = true;
                    kills[q][j] = true;
                    out.push((q - 1, lo[i].0, Some(hi[j].0)));
                }
            }
        }
    }
    for q in 0..=top {
        for i in 0..cells[q].len() {
            if !killed[q][i] && !kills[q][i] {
                out.push((q, cells[q][i].0, None));
            }
        }
    }
    out
}

/// Bars that last, in dimensions up to `top`.
pub fn lasting(b: Vec<Bar>, top: usize) -> Vec<Bar> {
    b.into_iter().filter(|x| x.0 <= top && Some(x.1) != x.2).collect()
}

fn same(a: &[Bar], b: &[Bar]) {
    check!(a.len() == b.len(), "the number of bars is that of the filtration");
    let mut used = vec![false; b.len()];
    for x in a {
        match (0..b.len()).find(|&i| !used[i] && b[i] == *x) {
            Some(i) => used[i] = true,
            None => check!(false, "a bar is one of the filtration's"),
        }
    }
}

fn read(d: &Dist, essential: Vec<RipsIndex>, pairings: Vec<(RipsIndex, RipsIndex)>) -> Vec<Bar> {
    let n = d.len();
    let val = |x: RipsIndex| diameter(d, &x.to_vec(n));
    let mut out: Vec<Bar> = essential.iter().map(|&x| (x.dimension(n), val(x), None)).collect();
    for (b, e) in pairings {
        check!(b.dimension(n) + 1 == e.dimension(n), "a class dies one dimension above its own");
        out.push((b.dimension(n), val(b), Some(val(e))));
    }
    out
}

/// arg: points, maximal dimension, levels of the distances, mode
/// (0 homology, 1 homology with clearing, 2 cohomology, 3 cohomology with clearing).
fn go<CF: Invertible + std::fmt::Debug + 'static>(f: F<CF>, mut a: Arg) {
    let (n, top, levels, mode) = (a.take() as usize, a.take() as usize, a.take(), a.take());
    let d = any_distances(n, levels);
    let got;
    let want;
    if mode < 2 {
        let m = build_rips_boundary_matrix::<CF>(d.clone(), top);
        let g = if mode == 0 { standard_algo_with_diagram(&m, false).1 } else { ClearedReductionMatrix::build_with_diagram(&m, (0..=top).rev()).1 };
        got = read(&d, g.essential.into_iter().collect(), g.pairings.into_iter().collect());
        want = bars(f.p, &d, top);
    } else {
        let m = MatrixOracle::reverse(build_rips_coboundary_matrix::<CF>(d.clone(), top));
        let g = if mode == 2 { standard_algo_with_diagram(&m, false).1 } else { ClearedReductionMatrix::build_with_diagram(&m, 0..=top).1 };
        got = read(&d, g.essential.into_iter().map(|x| x.0).collect(), g.pairings.into_iter().map(|(a, b)| (b.0, a.0)).collect());
        want = bars(f.p, &d, top + 1);
    }
    let got = lasting(got, top);
    let want = lasting(want, top);
    same(&got, &want);
    for b in &want {
        if b.0 == 1 && b.2.is_some() {
            reach!("rips diagram: a loop that is filled");
        }
        if b.0 == 0 && b.2.is_some() {
            reach!("rips diagram: components that merge");
        }
    }
    observe!("bars", got.len());
    reach!("rips diagram: end");
}

#[cfg(feature = "h_rips_diagram")]
#[no_mangle]
pub extern "C" fn h_rips_diagram(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, go(f, a))
}
